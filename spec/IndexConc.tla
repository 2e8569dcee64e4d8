------------------------------ MODULE IndexConc ------------------------------
(* The locking of the index: an update checks the filter under the read lock, *)
(* then inserts label after label under the write lock; a read copies element *)
(* after element under the read lock.  Every read must be a snapshot: equal   *)
(* to the complete updates up to some point between its begin and its end.    *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Writers, Readers, Labels

VARIABLES
  data,      \* labels inserted so far: set of <<writer's series, label>>
  filter,    \* series already known
  wlock,     \* holder of the write lock, or "none"
  rlocks,    \* holders of the read lock
  pc, todo,  \* control state of each process; labels still to insert / to copy
  got,       \* what each reader has copied
  begun, done, \* ghost: series whose ingestion has begun / finished
  lo         \* ghost: series finished when the read began
vars == <<data, filter, wlock, rlocks, pc, todo, got, begun, done, lo>>
Procs == Writers \cup Readers
Series == Writers   \* each writer ingests its own series, twice

Init == /\ data = {} /\ filter = {} /\ wlock = "none" /\ rlocks = {}
        /\ pc = [p \in Procs |-> "start"]
        /\ todo = [p \in Procs |-> {}] /\ got = [r \in Readers |-> {}]
        /\ begun = {} /\ done = {} /\ lo = [r \in Readers |-> {}]

RLock(p) == wlock = "none" /\ rlocks' = rlocks \cup {p}
Lock(p) == wlock = "none" /\ rlocks = {} /\ wlock' = p

WBegin(w) == /\ pc[w] = "start" /\ RLock(w)
             /\ begun' = begun \cup {w}
             /\ pc' = [pc EXCEPT ![w] = IF w \in filter THEN "known" ELSE "unknown"]
             /\ UNCHANGED <<data, filter, wlock, todo, got, done, lo>>
WChecked(w) == /\ pc[w] \in {"known", "unknown"}
               /\ rlocks' = rlocks \ {w}
               /\ pc' = [pc EXCEPT ![w] = IF pc[w] = "known" THEN "end" ELSE "lock"]
               /\ UNCHANGED <<data, filter, wlock, todo, got, begun, done, lo>>
WLock(w) == /\ pc[w] = "lock" /\ Lock(w)
            /\ filter' = filter \cup {w}
            /\ todo' = [todo EXCEPT ![w] = Labels]
            /\ pc' = [pc EXCEPT ![w] = "insert"]
            /\ UNCHANGED <<data, rlocks, got, begun, done, lo>>
WInsert(w) == /\ pc[w] = "insert" /\ todo[w] # {}
              /\ \E l \in todo[w] : /\ data' = data \cup {<<w, l>>}
                                    /\ todo' = [todo EXCEPT ![w] = @ \ {l}]
              /\ UNCHANGED <<filter, wlock, rlocks, pc, got, begun, done, lo>>
WUnlock(w) == /\ pc[w] = "insert" /\ todo[w] = {}
              /\ wlock' = "none"
              /\ pc' = [pc EXCEPT ![w] = "end"]
              /\ UNCHANGED <<data, filter, rlocks, todo, got, begun, done, lo>>
WEnd(w) == /\ pc[w] = "end" /\ done' = done \cup {w}
           /\ pc' = [pc EXCEPT ![w] = "start"]
           /\ UNCHANGED <<data, filter, wlock, rlocks, todo, got, begun, lo>>

RBegin(r) == /\ pc[r] = "start"
             /\ lo' = [lo EXCEPT ![r] = done]
             /\ pc' = [pc EXCEPT ![r] = "lock"]
             /\ UNCHANGED <<data, filter, wlock, rlocks, todo, got, begun, done>>
RLocked(r) == /\ pc[r] = "lock" /\ RLock(r)
              /\ todo' = [todo EXCEPT ![r] = Series \X Labels]
              /\ got' = [got EXCEPT ![r] = {}]
              /\ pc' = [pc EXCEPT ![r] = "copy"]
              /\ UNCHANGED <<data, filter, wlock, begun, done, lo>>
RCopy(r) == /\ pc[r] = "copy" /\ todo[r] # {}
            /\ LET e == CHOOSE e \in todo[r] : TRUE
               IN /\ todo' = [todo EXCEPT ![r] = @ \ {e}]
                  /\ got' = [got EXCEPT ![r] = IF e \in data THEN @ \cup {e} ELSE @]
            /\ UNCHANGED <<data, filter, wlock, rlocks, pc, begun, done, lo>>
RUnlock(r) == /\ pc[r] = "copy" /\ todo[r] = {}
              /\ rlocks' = rlocks \ {r}
              /\ pc' = [pc EXCEPT ![r] = "read"]
              /\ UNCHANGED <<data, filter, wlock, todo, got, begun, done, lo>>
REnd(r) == /\ pc[r] = "read" /\ pc' = [pc EXCEPT ![r] = "start"]
           /\ UNCHANGED <<data, filter, wlock, rlocks, todo, got, begun, done, lo>>

Next == \/ \E w \in Writers : WBegin(w) \/ WChecked(w) \/ WLock(w) \/ WInsert(w) \/ WUnlock(w) \/ WEnd(w)
        \/ \E r \in Readers : RBegin(r) \/ RLocked(r) \/ RCopy(r) \/ RUnlock(r) \/ REnd(r)

Snapshot == \A r \in Readers : pc[r] = "read" =>
              \E S \in SUBSET begun : lo[r] \subseteq S /\ got[r] = S \X Labels
Exclusive == wlock # "none" => rlocks = {}
=============================================================================
