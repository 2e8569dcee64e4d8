-------------------------------- MODULE Runner --------------------------------
(* The event loop: events of the screen and what they do to the current view. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxViews, MaxCols, MaxRows, MaxEvents
NoView == 0

VARIABLES view,     \* the current view
          cols, rows, \* size of the screen
          late,     \* whether the event of its last change is still to come
          box,      \* what each view was last given
          shows,    \* whose drawing is on the screen: a set of views
          effects, hist
vars == <<view, cols, rows, late, box, shows, effects, hist>>

Draw(v, cleared) == IF v = NoView THEN <<>> ELSE <<[e |-> "flush", v |-> v], [e |-> "show", on |-> cleared \cup {v}]>>
SetBox(v, c, r) == IF v = NoView THEN <<>> ELSE <<[e |-> "setbox", v |-> v, c |-> c, r |-> r]>>

Log(ev) == hist' = Append(hist, ev @@ [effects |-> effects'])

Resize(c, r) ==
  /\ cols' = c /\ rows' = r /\ late' = FALSE /\ view' = view
  /\ box' = IF view = NoView THEN box ELSE [box EXCEPT ![view] = <<c, r>>]
  /\ effects' = SetBox(view, c, r) \o Draw(view, {})
  /\ shows' = IF view = NoView THEN {} ELSE {view}       \* (a resized screen starts empty)
  /\ Log([op |-> "resize", c |-> c, r |-> r])
\* the screen changes its size, the event comes later
Change(c, r) ==
  /\ cols' = c /\ rows' = r /\ late' = TRUE
  /\ effects' = <<>> /\ shows' = {} /\ UNCHANGED <<view, box>>
  /\ Log([op |-> "change", c |-> c, r |-> r])
Update(v) ==
  /\ view' = v /\ box' = [box EXCEPT ![v] = <<cols, rows>>]
  /\ effects' = SetBox(v, cols, rows) \o Draw(v, {})
  /\ shows' = {v} /\ UNCHANGED <<cols, rows, late>>
  /\ Log([op |-> "update", v |-> v])
Repaint ==
  /\ effects' = Draw(view, shows) /\ UNCHANGED <<view, cols, rows, late, box, shows>>
  /\ Log([op |-> "repaint"])
Key(k) ==
  /\ effects' = <<[e |-> "key", k |-> k]>> /\ UNCHANGED <<view, cols, rows, late, box, shows>>
  /\ Log([op |-> "key", k |-> k])

Views == 1..MaxViews
Init == /\ view \in 0..1      \* with an initial view or without; it is drawn at once
        /\ cols = 20 /\ rows = 8 /\ late = FALSE /\ box = [v \in Views |-> <<0, 0>>]
        /\ effects = Draw(view, {}) /\ shows = IF view = NoView THEN {} ELSE {view}
        /\ hist = <<[op |-> "start", v |-> view, effects |-> effects]>>
More == Len(hist) < MaxEvents
Next == \/ More /\ \E c \in 1..MaxCols, r \in 1..MaxRows : Resize(c, r) \/ Change(c, r)
        \/ More /\ \E v \in Views : Update(v)
        \/ More /\ Repaint
        \/ More /\ \E k \in 1..2 : Key(k)
RandNext ==
  /\ More
  /\ \E k \in {RandomElement(1..8)} :
       CASE k <= 2 -> IF late THEN Resize(cols, rows)
                        ELSE \E c \in {RandomElement(1..MaxCols)} : \E r \in {RandomElement(1..MaxRows)} : \E m \in {RandomElement(1..6)} :
                               CASE m <= 2 -> Resize(c, r) [] m = 3 -> Resize(rows, cols)
                                 [] m = 4 -> Change(rows, cols) [] OTHER -> Change(c, r)
         [] k <= 4 -> \E v \in {RandomElement(Views)} : Update(v)
         [] k <= 6 -> Repaint
         [] OTHER -> \E n \in {RandomElement(1..26)} : Key(n)

-------------------------------------------------------------------------------
View_ == <<view, cols, rows, late, box, shows, effects, Len(hist)>>
\* only the current view is on the screen, in the whole of it
OnlyCurrent == shows \subseteq {view} /\ (~late /\ view # NoView => shows # {}) /\ NoView \notin shows
WholeScreen == Len(hist) > 1 /\ ~late /\ view # NoView /\ view # 1 => box[view] = <<cols, rows>>
Touched == \A i \in DOMAIN effects : "v" \in DOMAIN effects[i] => effects[i].v = view
NoViewNoDraw == view = NoView => \A i \in DOMAIN effects : effects[i].e = "key"
Emit == Len(hist') = MaxEvents => PrintT(ToJson([ops |-> hist']))
===============================================================================
