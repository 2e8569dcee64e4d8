------------------------------- MODULE Window -------------------------------
(* When queries are evaluated (promq/prom PeriodicData.ManuallyExecuteQuery):  *)
(* a range query at every interval of the window that ends now, an instant     *)
(* query now.  Time is counted in quarters of an interval relative to now;     *)
(* scrapes deliver samples at such times, past and future, in any order.       *)
(* Every evaluation shows the latest sample of each series that is not after   *)
(* it and not older than the lookback.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Windows,    \* lengths of the window, in quarters of an interval
          Past,       \* samples lie between -Past and Future
          Future,
          MaxScrapes,
          Lookback,   \* in quarters of an interval
          Sim

VARIABLES w, instant, stored, hist
vars == <<w, instant, stored, hist>>

Series == 1..2
Times == (-Past)..Future

\* the evaluation times
Evals == IF instant THEN {0} ELSE {t \in (-w)..0 : (t + w) % 4 = 0}
Index(t) == IF instant THEN 0 ELSE (t + w) \div 4

At(st, s) == {x \in st : x.s = s}
Visible(st, s, t) == {x \in At(st, s) : x.t <= t /\ x.t > t - Lookback}
Latest(S) == CHOOSE x \in S : \A y \in S : y.t <= x.t
Result(st) == { [s |-> s, pts |-> {<<Index(t), Latest(Visible(st, s, t)).id>> :
                                   t \in {t \in Evals : Visible(st, s, t) # {}}}] :
                s \in {s \in Series : \E t \in Evals : Visible(st, s, t) # {}} }

\* a sample exactly as old as the lookback may or may not count any more
Unclear(t) == \E e \in Evals : e - t = Lookback

Init == /\ w \in Windows /\ instant \in BOOLEAN
        /\ stored = {} /\ hist = <<>>

Free(s) == {t \in Times : ~Unclear(t) /\ \A x \in stored : ~(x.s = s /\ x.t = t)}
Scrape(ss) ==
  /\ stored' = stored \cup ss
  /\ hist' = Append(hist, [got |-> ss, want |-> Result(stored')])
  /\ UNCHANGED <<w, instant>>
Fresh(x) == ~Unclear(x.t) /\ \A y \in stored : ~(y.s = x.s /\ y.t = x.t)
N == Cardinality(stored)
Next ==
  /\ Len(hist) < MaxScrapes
  /\ IF Sim
     THEN \* up to three samples, of which those that clash with others are left out
          \E n \in {RandomElement(0..3)} :
          \E a \in {[k \in 1..n |-> [s |-> RandomElement(Series), t |-> RandomElement(Times)]]} :
          \E ok \in {SelectSeq([k \in 1..n |-> k],
                                LAMBDA k : Fresh(a[k]) /\ \A l \in 1..(k - 1) : a[l] # a[k])} :
             Scrape({[s |-> a[ok[i]].s, t |-> a[ok[i]].t, id |-> N + i] : i \in 1..Len(ok)})
     ELSE \E s \in Series, t \in Times :
             Fresh([s |-> s, t |-> t]) /\ Scrape({[s |-> s, t |-> t, id |-> N + 1]})

Distinct == \A x, y \in stored : (x.s = y.s /\ x.t = y.t) => x = y
\* what is shown was stored, is not from the future of its evaluation, and
\* nothing newer that could have been shown is held back
Honest == \A r \in Result(stored) : \A p \in r.pts :
            /\ p[1] \in 0..(IF instant THEN 0 ELSE w \div 4)
            /\ \E x \in At(stored, r.s) : x.id = p[2] /\ \A y \in At(stored, r.s) :
                 ~(y.t > x.t /\ y.t <= (IF instant THEN 0 ELSE 4 * p[1] - w))
\* a range query always ends with what an instant query shows, if the window
\* is a whole number of intervals
EndsNow == (~instant /\ w % 4 = 0) =>
  \A s \in Series : \A x \in Visible(stored, s, 0) :
     x = Latest(Visible(stored, s, 0)) =>
       \E r \in Result(stored) : r.s = s /\ <<w \div 4, x.id>> \in r.pts

Emit == (Len(hist') = MaxScrapes) => PrintT(ToJson([w |-> w, instant |-> instant, h |-> hist']))
=============================================================================
