-------------------------------- MODULE KeyOps --------------------------------
(* Keys and what the prompt reads.  Keys are numbers into a table given by the
   harness; each is a character with its bytes, a special key with the codes the
   prompt understands as that key, or one the prompt does not know.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Tab == JsonDeserialize("keys.json")
Kinds == {"char", "special", "unknown"}

\* The state is the sequence of keys the prompt has not received, from the
\* front of which a read takes.
RECURSIVE DropUnknown(_)
DropUnknown(q) == IF q # <<>> /\ Tab[q[1]].kind = "unknown" THEN DropUnknown(Tail(q)) ELSE q
Bad == <<0>>
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
\* characters (with unknown keys between) whose bytes are exactly b
RECURSIVE TakeChars(_, _)
TakeChars(q, b) ==
  LET r == DropUnknown(q)
  IN  IF b = <<>> THEN q
      ELSE IF r = <<>> \/ Tab[r[1]].kind # "char" \/ ~Prefix(Tab[r[1]].bytes, b) THEN Bad
      ELSE TakeChars(Tail(r), SubSeq(b, Len(Tab[r[1]].bytes) + 1, Len(b)))
\* the keys left after reading b (<<>>: no input), or Bad
AfterRead(q, b) ==
  LET r == DropUnknown(q)
  IN  IF b = <<>>
      THEN IF q = <<>> THEN q                        \* nothing there
           ELSE IF r # q THEN Tail(q)                \* an unknown key was skipped
           ELSE Bad                                  \* there was input
      ELSE IF r = <<>> THEN Bad
      ELSE IF Tab[r[1]].kind = "special"
           THEN IF \E j \in DOMAIN Tab[r[1]].codes : Tab[r[1]].codes[j] = b THEN Tail(r) ELSE Bad
           ELSE TakeChars(r, b)
===============================================================================
