--------------------------------- MODULE Keys ---------------------------------
(* Keys pressed and read by the prompt, in any interleaving.  The reader here
   takes as many characters at once as it can; others are as good (KeyOps).   *)
EXTENDS KeyOps
CONSTANTS MaxOps, MaxPending

OfKind == [k \in Kinds |-> {i \in DOMAIN Tab : Tab[i].kind = k}]
VARIABLES q, got, hist
vars == <<q, got, hist>>

RandKey(k) == RandomElement(OfKind[CASE k <= 5 -> "char" [] k <= 9 -> "special" [] OTHER -> "unknown"])
Press == /\ Len(q) < MaxPending
         /\ \E i \in {RandKey(RandomElement(1..10))} :
              q' = Append(q, i) /\ hist' = Append(hist, i) /\ UNCHANGED got

RECURSIVE Chars(_)
Chars(s) == IF s = <<>> \/ Tab[s[1]].kind # "char" THEN <<>> ELSE Tab[s[1]].bytes \o Chars(Tail(s))
RECURSIVE AfterChars(_)
AfterChars(s) == IF s = <<>> \/ Tab[s[1]].kind # "char" THEN s ELSE AfterChars(Tail(s))
Read ==
  /\ hist' = Append(hist, 0)
  /\ IF q = <<>> THEN UNCHANGED <<q, got>>
     ELSE CASE Tab[q[1]].kind = "unknown" -> q' = Tail(q) /\ got' = <<>>
            [] Tab[q[1]].kind = "special" -> q' = Tail(q) /\ got' = Tab[q[1]].codes[1]
            [] OTHER -> q' = AfterChars(q) /\ got' = Chars(q)

Init == q = <<>> /\ got = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E k \in {RandomElement(1..4)} : IF k = 1 \/ Len(q) = MaxPending THEN Read ELSE Press
\* this reader is one KeyOps accepts
Accepted == [][\A i \in {Len(hist')} : hist'[i] = 0 /\ q # <<>> => AfterRead(q, got') = q']_vars
Emit == Len(hist') = MaxOps => PrintT(ToJson([ops |-> hist']))
===============================================================================
