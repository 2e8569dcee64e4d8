------------------------------ MODULE Storage ------------------------------
(* The in-memory sample store of promq/prom (rangeStorage): loading batches   *)
(* of samples, expiring old ones, and everything that can be read back.       *)
EXTENDS Labels, Integers, SequencesExt, Json

CONSTANTS Series,     \* the label sets in use: indices into LS
          MaxTime,    \* timestamps are ranks 0..MaxTime
          MaxBatch,   \* samples per loaded batch
          MaxDepth,   \* operations per behaviour
          Sim,        \* random walks: observations along the way,
          ObsEvery    \* after every so many steps

(* 3 and 4 hash to the same value in the implementation. *)
LS == << [__name__ |-> "m"],
         [__name__ |-> "m", a |-> "x"],
         [__name__ |-> "metric", lbl1 |-> "value", lbl2 |-> "l6CQ5y"],
         [__name__ |-> "metric", lbl1 |-> "value", lbl2 |-> "v7uDlF"],
         [__name__ |-> "m", a |-> "x", b |-> "y"],
         [a |-> "x"],
         [__name__ |-> "n", b |-> "x"] >>

Battery == << << M("__name__", "=~", ".+") >>,
              << M("a", "=", "x") >>,
              << M("a", "!=", "x") >>,
              << M("a", "=", "") >>,
              << M("a", "!=", "") >>,
              << M("__name__", "=", "metric"), M("lbl2", "!=", "l6CQ5y") >>,
              << M("__name__", "=~", "m.*"), M("b", "!~", "y|") >>,
              << M("a", "=~", "x?"), M("b", "=", "") >> >>

Names == UNION {DOMAIN LS[i] : i \in 1..Len(LS)}

VARIABLES store,   \* per label set, its samples <<time, value>> in reading order
          loaded,  \* every sample ever loaded: <<series, time, value>> in order
          cut,     \* for each loaded sample, the largest cut-off applied since
          hist
vars == <<store, loaded, cut, hist>>

Init == /\ store = [i \in 1..Len(LS) |-> <<>>]
        /\ loaded = <<>> /\ cut = <<>> /\ hist = <<>>

\* after all samples with a timestamp not larger, before all larger ones
Insert(s, t, v) ==
  LET k == Cardinality({i \in 1..Len(s) : s[i][1] <= t})
  IN SubSeq(s, 1, k) \o << <<t, v>> >> \o SubSeq(s, k + 1, Len(s))

RECURSIVE LoadAll(_, _, _)
LoadAll(st, batch, v) ==
  IF batch = <<>> THEN st
  ELSE LET p == Head(batch)
       IN LoadAll([st EXCEPT ![p[1]] = Insert(@, p[2], v)], Tail(batch), v + 1)

Stored(st) == {i \in DOMAIN st : st[i] # <<>>}
Select(st, ms) == {i \in Stored(st) : AcceptsAll(LS[i], ms)}
LabelNames(st) == UNION {DOMAIN LS[i] : i \in Stored(st)}
LabelValues(st, n) == {LS[i][n] : i \in {j \in Stored(st) : n \in DOMAIN LS[j]}}

Obs(st) == [data |-> st,
            sel |-> [k \in 1..Len(Battery) |-> Select(st, Battery[k])],
            names |-> LabelNames(st),
            values |-> [n \in Names |-> LabelValues(st, n)]]

Log(e, st) == hist' = Append(hist, e @@ [obs |-> IF Sim /\ (Len(hist) + 1) % ObsEvery = 0 THEN Obs(st) ELSE <<>>])

Batches == UNION {[1..k -> Series \X (0..MaxTime)] : k \in 1..MaxBatch}

Load(b) ==
  /\ store' = LoadAll(store, b, Len(loaded) + 1)
  /\ loaded' = loaded \o [i \in 1..Len(b) |-> <<b[i][1], b[i][2], Len(loaded) + i>>]
  /\ cut' = cut \o [i \in 1..Len(b) |-> -1]
  /\ Log([op |-> "load", b |-> b, v |-> Len(loaded) + 1], store')

Clean(c) ==
  /\ store' = [i \in DOMAIN store |-> SelectSeq(store[i], LAMBDA p : p[1] >= c)]
  /\ cut' = [i \in DOMAIN cut |-> IF cut[i] < c THEN c ELSE cut[i]]
  /\ UNCHANGED loaded
  /\ Log([op |-> "clean", c |-> c], store')

RandBatch ==
  CHOOSE b \in {[i \in 1..k |-> <<RandomElement(Series), RandomElement(0..MaxTime)>>] :
                k \in {RandomElement(1..MaxBatch)}} : TRUE

Next == /\ Len(hist) < MaxDepth
        /\ IF Sim
           THEN \E r \in {RandomElement(1..4)} :
                  IF r = 1
                  THEN \E c \in {RandomElement(0..(MaxTime + 1))} : Clean(c)
                  ELSE \E b \in {RandBatch} : Load(b)
           ELSE \/ \E b \in Batches : Load(b)
                \/ \E c \in 0..(MaxTime + 1) : Clean(c)

Spec == Init /\ [][Next]_vars

(* ---- the properties, on the specification ---- *)
\* reading returns ascending timestamps, arrival order among equal ones
Ordered == \A i \in DOMAIN store : \A k \in 1..(Len(store[i]) - 1) :
             \/ store[i][k][1] < store[i][k + 1][1]
             \/ store[i][k][1] = store[i][k + 1][1] /\ store[i][k][2] < store[i][k + 1][2]
\* exactly the samples loaded for the label set that no later cut-off covers
Exact == \A i \in DOMAIN store :
           ToSet(store[i]) = {<<loaded[k][2], loaded[k][3]>> :
                              k \in {k \in 1..Len(loaded) : loaded[k][1] = i /\ loaded[k][2] >= cut[k]}}
\* a clean removes only what is older, and only loads add anything
CleanExact == [][\A i \in DOMAIN store : loaded' = loaded => ToSet(store'[i]) \subseteq ToSet(store[i])]_vars

Emit == IF Sim
        THEN (Len(hist') = MaxDepth => PrintT(ToJson([h |-> hist'])))
        ELSE PrintT(ToJson([h |-> hist', obs |-> Obs(store')]))
ASSUME PrintT(ToJson([meta |-> [ls |-> LS, battery |-> Battery, names |-> Names]]))
=============================================================================
