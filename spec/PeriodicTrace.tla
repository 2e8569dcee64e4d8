----------------------------- MODULE PeriodicTrace -----------------------------
(* Validates executions recorded from the real PeriodicData under free        *)
(* scheduling.  Every line was written with a global sequence number:         *)
(*  reset; fetch p (source entered); fetched p b id ok (about to return data);*)
(*  report p r (callback entered, with the result it was given);              *)
(*  reported p (callback about to return); ret p r; setcall k q; setret k ok. *)
(* Not recorded, so chosen by TLC: when a SetQuery takes effect between its   *)
(* call and return, and when a scrape reads the query, after storing its data *)
(* and before its callback is entered.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Trace == ndJsonDeserialize("recs.ndjson")
Last == FALSE
P == INSTANCE Periodic WITH Scrapers <- {1, 2, 3}, MaxDepth <- 0, Sim <- FALSE, SetChoices <- {}, FailChoices <- {},
       Batches <- 4, pc <- <<>>, waiting <- <<>>, stored <- <<>>, names <- {}, query <- 0, nid <- 0, over <- {}, hist <- <<>>

VARIABLES l, holder, phase, stored, query, got, pend
\* holder: scraper whose turn it is (0: none); phase: "fetch", "stored", "read", "report", "done"
\* got: the query the current scrape has read; pend: calls of SetQuery not yet effective
vars == <<l, holder, phase, stored, query, got, pend>>
Fresh == holder' = 0 /\ phase' = "none" /\ stored' = <<>> /\ query' = 0 /\ got' = 0 /\ pend' = {}
Init == l = 0 /\ holder = 0 /\ phase = "none" /\ stored = <<>> /\ query = 0 /\ got = 0 /\ pend = {}
E == Trace[l + 1]
Is(k) == l < Len(Trace) /\ E.e = k /\ l' = l + 1
Rng(s) == {s[i] : i \in 1..Len(s)}

Reset == Is("reset") /\ Fresh
Fetch == Is("fetch") /\ holder = 0 /\ holder' = E.p /\ phase' = "fetch" /\ UNCHANGED <<stored, query, got, pend>>
Fetched == /\ Is("fetched") /\ holder = E.p /\ phase = "fetch"
           /\ IF E.ok
              THEN /\ stored' = stored \o [i \in 1..Len(E.b) |-> <<E.b[i], E.id + i - 1>>]
                   /\ phase' = "stored"
              ELSE phase' = "failed" /\ UNCHANGED stored
           /\ UNCHANGED <<holder, query, got, pend>>
ReadQuery == /\ phase = "stored" /\ phase' = "read" /\ got' = query
             /\ UNCHANGED <<l, holder, stored, query, pend>>
Report == /\ Is("report") /\ holder = E.p /\ phase = "read" /\ got \in {1, 2}
          /\ {<<x[1], x[2]>> : x \in Rng(E.r)} = P!Result(got, stored)
          /\ phase' = "report" /\ UNCHANGED <<holder, stored, query, got, pend>>
Reported == Is("reported") /\ holder = E.p /\ phase = "report" /\ phase' = "reported"
            /\ UNCHANGED <<holder, stored, query, got, pend>>
\* the scrape gives up its turn before its call returns to the caller: silent
Release == /\ \/ phase \in {"reported", "failed"}
              \/ phase = "read" /\ got \in {0, 3}
           /\ holder' = 0 /\ phase' = "none"
           /\ pend' = pend \cup {<<"ret", holder, IF phase = "failed" THEN "fetch" ELSE IF phase = "read" THEN "query" ELSE "ok">>}
           /\ UNCHANGED <<l, stored, query, got>>
Ret == /\ Is("ret") /\ <<"ret", E.p, E.r>> \in pend
       /\ pend' = pend \ {<<"ret", E.p, E.r>>}
       /\ UNCHANGED <<holder, phase, stored, query, got>>
SetCall == Is("setcall") /\ pend' = pend \cup {<<"set", E.k, E.q>>} /\ UNCHANGED <<holder, phase, stored, query, got>>
SetTakes == \E x \in pend : /\ x[1] = "set"
                            /\ query' = IF P!Valid(x[3]) THEN x[3] ELSE query
                            /\ pend' = (pend \ {x}) \cup {<<"setret", x[2], x[3]>>}
                            /\ UNCHANGED <<l, holder, phase, stored, got>>
SetRet == /\ Is("setret") /\ \E x \in pend : /\ x[1] = "setret" /\ x[2] = E.k
                                             /\ E.ok = P!Valid(x[3])
                                             /\ pend' = pend \ {x}
          /\ UNCHANGED <<holder, phase, stored, query, got>>
Next == Reset \/ Fetch \/ Fetched \/ ReadQuery \/ Report \/ Reported \/ Release \/ Ret \/ SetCall \/ SetTakes \/ SetRet

Track == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
TraceDone == PrintT(ToJson([reached |-> TLCGet(1), len |-> Len(Trace)]))
=============================================================================
