------------------------------ MODULE Session ------------------------------
(* An editing session: texts being typed, shortened, replaced and revisited in
   several prompts, with the index changing in between, and a completion asked
   for after every step.  Whatever came before, the answer to a request is
   Answer(text, cursor, index): the history is not part of it.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NTexts, NComp, NIndex, MaxOps

\* the length of each text, given by the harness
Lens == JsonDeserialize("lens.json")
\* the texts that differ from a text in words of the same length and kind only
Variants == JsonDeserialize("variants.json")

VARIABLES at,    \* completer -> [text, pos], what is in its prompt
          idx,   \* completer -> index it reads
          hist   \* operations, each request with what decides its answer
vars == <<at, idx, hist>>

Comps == 1..NComp
Init == /\ at = [c \in Comps |-> [t |-> 1, p |-> 0]]
        /\ idx = [c \in Comps |-> 1]
        /\ hist = <<>>

Ask(c, t, p, how) ==
  /\ at' = [at EXCEPT ![c] = [t |-> t, p |-> p]]
  /\ hist' = Append(hist, [op |-> how, c |-> c, t |-> t, p |-> p, i |-> idx[c]])
  /\ UNCHANGED idx

Type(c) == /\ at[c].p < Lens[at[c].t] /\ Ask(c, at[c].t, at[c].p + 1, "type")
TypeOn(c) == \E p \in {RandomElement(0..Lens[at[c].t])} :
               p > at[c].p /\ Ask(c, at[c].t, p, "type-on")
Delete(c) == /\ at[c].p > 0 /\ Ask(c, at[c].t, at[c].p - 1, "delete")
\* the same cursor in another text: an edit of the text before the cursor
Replace(c) == \E t \in {RandomElement(1..NTexts)} :
                Lens[t] >= at[c].p /\ Ask(c, t, at[c].p, "replace")
Swap(c) == \E i \in {RandomElement(0..Len(Variants[at[c].t]))} :
             i > 0 /\ Ask(c, Variants[at[c].t][i], at[c].p, "swap")
Open(c) == \E t \in {RandomElement(1..NTexts)} : \E p \in {RandomElement(0..Lens[t])} : Ask(c, t, p, "open")
Again(c) == Ask(c, at[c].t, at[c].p, "again")
SetIndex(c) == \E i \in {RandomElement(1..NIndex)} :
                 /\ i # idx[c] /\ idx' = [idx EXCEPT ![c] = i]
                 /\ hist' = Append(hist, [op |-> "index", c |-> c, i |-> i])
                 /\ UNCHANGED at

Step(c) == Type(c) \/ TypeOn(c) \/ Delete(c) \/ Replace(c) \/ Swap(c) \/ Open(c) \/ Again(c) \/ SetIndex(c)
Next == /\ Len(hist) < MaxOps
        /\ \E c \in {RandomElement(Comps)} : Step(c)

TypeOK == \A c \in Comps : at[c].p <= Lens[at[c].t]
Emit == Len(hist') = MaxOps => PrintT(ToJson([ops |-> hist']))

(* every ordered pair of requests *)
InitPairs == Init
NextPairs == /\ Len(hist) < 2
             /\ \E t \in 1..NTexts : Ask(1, t, Lens[t], "open")
HistView == hist
EmitPairs == Len(hist') = 2 => PrintT(ToJson([ops |-> hist']))
=============================================================================
