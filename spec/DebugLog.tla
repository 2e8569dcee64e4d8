----------------------------- MODULE DebugLog -----------------------------
(* Debug logging.  Processes are run one after another or several at once, each
   with the environment naming a place to log to, or none.  What a process
   answers depends on what it is asked alone.  The logs of a directory only
   ever grow: by the header of each logger of each process run with it, and by
   one line per series without a name it was given; nothing is written when no
   usable directory is named, nor anywhere else.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRuns, MaxOps, MaxProcs

Dirs == {"d1", "d2"}
NoPlaces == {"unset", "empty", "missing", "file"}
Places == Dirs \cup NoPlaces
\* what a process can be asked to do; own: log a line to a logger of its own
Kinds == {"named", "unnamed", "unnamed-many", "unnamed-flood", "complete", "own", "teardown"}
Many == 60
Flood == 6000

VARIABLES logs,   \* directory -> [there, errors, runs, own]
          cur,    \* processes of the next run, being put together
          hist
vars == <<logs, cur, hist>>

Empty == [there |-> FALSE, errors |-> 0, runs |-> 0, own |-> 0]
\* what the directories hold to start with: nothing, or logs of so many lines of some earlier time
Olds == {0, 3, 5000, 60000}
Init == \E a \in Olds, b \in {0, 3} :
          LET old == [d \in Dirs |-> IF d = "d1" THEN a ELSE b]
          IN /\ logs = [d \in Dirs |-> IF old[d] = 0 THEN Empty ELSE [Empty EXCEPT !.there = TRUE, !.errors = old[d]]]
             /\ cur = <<>>
             /\ hist = <<[op |-> "old", old |-> old, logs |-> logs]>>

SumN(s, F(_)) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i-1] + F(s[i]) IN f[Len(s)]
\* the part of a process that is before it closes its logs
Logged(ops) == LET ends == {i \in 1..Len(ops) : ops[i] = "teardown"}
               IN IF ends = {} THEN ops ELSE SubSeq(ops, 1, (CHOOSE i \in ends : \A j \in ends : i <= j) - 1)
Count(ops, k) == Cardinality({i \in 1..Len(ops) : ops[i] = k})
Errors(p) == IF p.cmd THEN 0 ELSE Count(Logged(p.ops), "unnamed") + Many * Count(Logged(p.ops), "unnamed-many") + Flood * Count(Logged(p.ops), "unnamed-flood")
\* loggers made after the others were closed work all the same
Owns(p) == IF p.cmd THEN 0 ELSE Count(p.ops, "own")

\* answers: the metric names offered, after so many were ingested
Answers(p) == [i \in 1..Len(p.ops) |->
                 IF p.ops[i] = "complete" THEN Count(SubSeq(p.ops, 1, i), "named") ELSE 0]

After(d, ps) ==
  LET here == SelectSeq(ps, LAMBDA p : p.place = d)
  IN IF here = <<>> THEN logs[d]
     ELSE [there  |-> TRUE,
           errors |-> logs[d].errors + SumN(here, Errors),
           runs   |-> logs[d].runs + Len(here),
           own    |-> logs[d].own + SumN(here, Owns)]

Add == /\ Len(cur) < MaxProcs
       /\ \E place \in {RandomElement(Places \cup Dirs)}, n \in {RandomElement(0..MaxOps)}, cmd \in {RandomElement({TRUE, FALSE, FALSE})} :
            \E ops \in {[i \in 1..n |-> RandomElement(Kinds)]} :
              cur' = Append(cur, [place |-> place, cmd |-> cmd, ops |-> IF cmd THEN <<>> ELSE ops])
       /\ UNCHANGED <<logs, hist>>
Run == /\ cur # <<>>
       /\ logs' = [d \in Dirs |-> After(d, cur)]
       /\ hist' = Append(hist, [op |-> "run", procs |-> cur, answers |-> [i \in 1..Len(cur) |-> Answers(cur[i])],
                                logs |-> logs'])
       /\ cur' = <<>>
\* somebody takes the logs away
Rotate == /\ cur = <<>>
          /\ \E d \in Dirs : /\ logs[d].there
                             /\ logs' = [logs EXCEPT ![d] = Empty]
                             /\ hist' = Append(hist, [op |-> "rotate", d |-> d, logs |-> logs'])
          /\ UNCHANGED cur

Next == Len(hist) < MaxRuns /\ (Add \/ Run \/ Rotate)

\* logging somewhere never touches another place, and never shrinks
Grows == [][ \A d \in Dirs : (hist' # hist /\ hist'[Len(hist')].op = "run") =>
               /\ logs'[d].errors >= logs[d].errors /\ logs'[d].runs >= logs[d].runs
               /\ ((\A i \in 1..Len(cur) : cur[i].place # d) => logs'[d] = logs[d]) ]_vars
Emit == Len(hist') = MaxRuns /\ hist' # hist => PrintT(ToJson([hist |-> hist']))
=============================================================================
