------------------------------ MODULE Periodic ------------------------------
(* Scraping, storing and reporting (promq/prom PeriodicData): scrapers take    *)
(* turns; each fetches, stores and indexes what it got, evaluates the query    *)
(* then in force and runs the result callback.  SetQuery may come at any time. *)
(* One action per step that the environment (data source, callback, callers)   *)
(* takes; ev lists what the real code must do in response.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Scrapers, MaxDepth, Sim, Last,
          SetChoices,   \* queries passed to SetQuery
          FailChoices,  \* of "fetch", "partial", "callback", "cancel"
          Batches       \* how many of the batches below a fetch may deliver
\* Last: results show only the latest sample of each series (range queries)

(* series 1, 2: metric m1; 3: metric m2 *)
MetricOf(s) == IF s = 3 THEN "m2" ELSE "m1"
BatchSeq == << <<1, 3>>, <<2>>, <<>>, <<1, 2, 1>> >>

(* queries: 0 unset; 1 metric m1; 2 every metric; 3 fails when executed;      *)
(* 8, 9 are not valid PromQL                                                  *)
Valid(q) == q \in {1, 2, 3}
Wants(q, s) == q = 2 \/ (q = 1 /\ s \in {1, 2})

VARIABLES
  pc,      \* of each scraper: "idle", "wait", "fetch", "report"
  waiting, \* at most one
  stored,  \* sequence of <<series, id>> in order of arrival
  names,   \* indexed metric names
  query,
  nid,     \* next sample id
  over,    \* scrapers whose current scrape's context has ended
  hist
vars == <<pc, waiting, stored, names, query, nid, over, hist>>

Init == over = {} /\ /\ pc = [p \in Scrapers |-> "idle"] /\ waiting = <<>>
        /\ stored = <<>> /\ names = {} /\ query = 0 /\ nid = 1 /\ hist = <<>>

Busy == \E p \in Scrapers : pc[p] \in {"fetch", "report"}

Of(st, s) == SelectSeq(st, LAMBDA x : x[1] = s)
Ids(st, s) == LET o == Of(st, s) IN [i \in 1..Len(o) |-> o[i][2]]
ResultIds(st, s) == LET o == Ids(st, s)
                    IN IF Last /\ o # <<>> THEN << o[Len(o)] >> ELSE o
Result(q, st) == {<<s, ResultIds(st, s)>> : s \in {s \in 1..3 : Wants(q, s) /\ Of(st, s) # <<>>}}

Step(e) == hist' = Append(hist, e)

\* the events of the next scraper's turn, once the current one's scrape is over
Handover == IF waiting = <<>> THEN <<>> ELSE << [e |-> "fetch", p |-> Head(waiting)] >>
PassOn(p) == /\ waiting' = <<>>
             /\ pc' = [x \in Scrapers |-> IF x = p THEN "idle"
                                          ELSE IF waiting # <<>> /\ x = Head(waiting) THEN "fetch" ELSE pc[x]]
Ret(p, r, ns) == << [e |-> "ret", p |-> p, r |-> r, names |-> ns] >>

Start(p) ==
  /\ pc[p] = "idle" /\ waiting = <<>>
  /\ IF Busy
     THEN /\ pc' = [pc EXCEPT ![p] = "wait"] /\ waiting' = <<p>>
          /\ Step([op |-> "start", p |-> p, ev |-> <<>>])
     ELSE /\ pc' = [pc EXCEPT ![p] = "fetch"] /\ UNCHANGED waiting
          /\ Step([op |-> "start", p |-> p, ev |-> << [e |-> "fetch", p |-> p] >>])
  /\ over' = over \ {p}
  /\ UNCHANGED <<stored, names, query, nid>>

\* the context of a scrape ends: whatever it is doing goes on, but no query is
\* evaluated for it any more
Cancel(p) ==
  /\ pc[p] # "idle" /\ p \notin over
  /\ over' = over \cup {p}
  /\ Step([op |-> "cancel", p |-> p, ev |-> <<>>])
  /\ UNCHANGED <<pc, waiting, stored, names, query, nid>>

\* the fetch fails, possibly with some data all the same: nothing happens
FetchFails(p, b) ==
  /\ pc[p] = "fetch"
  /\ PassOn(p)
  /\ nid' = nid + Len(b)
  /\ Step([op |-> "fetched", p |-> p, b |-> b, id |-> nid, ok |-> FALSE,
           ev |-> Ret(p, "fetch", names) \o Handover])
  /\ UNCHANGED <<stored, names, query, over>>

Fetched(p, b) ==
  /\ pc[p] = "fetch"
  /\ stored' = stored \o [i \in 1..Len(b) |-> <<b[i], nid + i - 1>>]
  /\ names' = names \cup {MetricOf(b[i]) : i \in 1..Len(b)}
  /\ nid' = nid + Len(b)
  /\ IF query \in {1, 2} /\ p \notin over
     THEN /\ pc' = [pc EXCEPT ![p] = "report"]
          /\ UNCHANGED waiting
          /\ Step([op |-> "fetched", p |-> p, b |-> b, id |-> nid, ok |-> TRUE,
                   ev |-> << [e |-> "report", p |-> p, r |-> Result(query, stored')] >>])
     ELSE /\ PassOn(p)
          /\ Step([op |-> "fetched", p |-> p, b |-> b, id |-> nid, ok |-> TRUE,
                   ev |-> Ret(p, "query", names') \o Handover])
  /\ UNCHANGED <<query, over>>

Reported(p, fails) ==
  /\ pc[p] = "report"
  /\ PassOn(p)
  /\ Step([op |-> "reported", p |-> p, ok |-> ~fails,
           ev |-> Ret(p, IF fails THEN "callback" ELSE "ok", names) \o Handover])
  /\ UNCHANGED <<stored, names, query, nid, over>>

SetQuery(q) ==
  /\ query' = IF Valid(q) THEN q ELSE query
  /\ Step([op |-> "set", q |-> q, ev |-> << [e |-> "set", ok |-> Valid(q)] >>])
  /\ UNCHANGED <<pc, waiting, stored, names, nid, over>>

BatchSet == {BatchSeq[i] : i \in 1..Batches}
Choices ==
     [a : {"start"}, p : {p \in Scrapers : pc[p] = "idle" /\ waiting = <<>>}]
  \cup [a : {"fetched"}, p : {p \in Scrapers : pc[p] = "fetch"}, b : BatchSet]
  \cup [a : {"failed"}, p : {p \in Scrapers : pc[p] = "fetch"},
        b : (IF "fetch" \in FailChoices THEN {<<>>} ELSE {}) \cup
            (IF "partial" \in FailChoices THEN {<<2, 3>>} ELSE {})]
  \cup [a : {"reported"}, p : {p \in Scrapers : pc[p] = "report"},
        f : {FALSE} \cup (IF "callback" \in FailChoices THEN {TRUE} ELSE {})]
  \cup [a : {"set"}, q : SetChoices]
  \cup (IF "cancel" \in FailChoices THEN [a : {"cancel"}, p : {p \in Scrapers : pc[p] # "idle" /\ p \notin over}] ELSE {})
Do(c) == CASE c.a = "start" -> Start(c.p)
           [] c.a = "fetched" -> Fetched(c.p, c.b)
           [] c.a = "failed" -> FetchFails(c.p, c.b)
           [] c.a = "reported" -> Reported(c.p, c.f)
           [] c.a = "set" -> SetQuery(c.q)
           [] c.a = "cancel" -> Cancel(c.p)
Next == /\ Len(hist) < MaxDepth
        /\ IF Sim THEN \E c \in {RandomElement(Choices)} : Do(c)
                  ELSE \E c \in Choices : Do(c)

(* ---- properties ---- *)
OneAtATime == Cardinality({p \in Scrapers : pc[p] \in {"fetch", "report"}}) <= 1
NoStarvation == waiting # <<>> => Busy      \* a waiting scraper has somebody to wait for
QueryValid == query = 0 \/ Valid(query)
\* only a successful fetch stores or indexes anything, and nothing is ever lost
StoresOnlyFetched == [][
     /\ SubSeq(stored', 1, Len(stored)) = stored
     /\ names \subseteq names'
     /\ (stored' # stored \/ names' # names) =>
          LET s == hist'[Len(hist')] IN s.op = "fetched" /\ s.ok]_vars
\* a failed fetch, and a failed callback, leave everything later as it would have been
ReportsOnce == \A p \in Scrapers :
  LET Count(kind) == Cardinality({i \in 1..Len(hist) : \E j \in 1..Len(hist[i].ev) :
                                    hist[i].ev[j].e = kind /\ hist[i].ev[j].p = p})
  IN Count("report") <= Count("fetch")

Emit == IF Sim THEN (Len(hist') = MaxDepth => PrintT(ToJson([h |-> hist'])))
        ELSE PrintT(ToJson([h |-> hist']))
=============================================================================
