------------------------------- MODULE KeysTrace -------------------------------
(* Recorded histories of keys pressed and read: sequences of [k |-> key] and
   [b |-> bytes read].  Each history has to be one the keys' queue can have.    *)
EXTENDS KeyOps
Recs == ndJsonDeserialize("recs.ndjson")
VARIABLES i, l, q, bad
Bads(n) == PrintT(ToJson([bad |-> i, step |-> n]))
Init == i = 1 /\ l = 1 /\ q = <<>> /\ bad = FALSE
H == Recs[i].h
NextRec == i' = i + 1 /\ l' = 1 /\ q' = <<>>
Next ==
  \/ /\ i <= Len(Recs) /\ l <= Len(H)
     /\ IF "k" \in DOMAIN H[l] THEN q' = Append(q, H[l].k) /\ l' = l + 1 /\ UNCHANGED <<i, bad>>
        ELSE \E r \in {AfterRead(q, H[l].b)} :
               IF r = Bad THEN Bads(l) /\ NextRec /\ bad' = TRUE
                          ELSE q' = r /\ l' = l + 1 /\ UNCHANGED <<i, bad>>
  \/ /\ i <= Len(Recs) /\ l = Len(H) + 1
     /\ \E r \in {DropUnknown(q)} :
          IF r = <<>> THEN NextRec /\ UNCHANGED bad ELSE Bads(l) /\ NextRec /\ bad' = TRUE
  \/ /\ i = Len(Recs) + 1 /\ PrintT(ToJson([done |-> Len(Recs)])) /\ i' = i + 1 /\ UNCHANGED <<l, q, bad>>
===============================================================================
