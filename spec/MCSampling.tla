----------------------------- MODULE MCSampling -----------------------------
(* All short histories of commands and sampling points on a tracker, and    *)
(* the relations between schedule, calls and records that every history     *)
(* must respect.  With Gen = TRUE each complete history is printed for      *)
(* replay into the real tracker.                                            *)
EXTENDS Sampling, TLC, Json
CONSTANTS Depth, Gen
VARIABLES G, hist, step, time, called
vars == <<G, hist, step, time, called>>

A(name, iv, tv, store, max, fail, handler, actat, act) ==
  [k |-> "attach", name |-> name, iv |-> iv, tv |-> tv, store |-> store, max |-> max, en |-> TRUE,
   fail |-> fail, handler |-> handler, actat |-> actat, act |-> act, bad |-> ""]
C(k, name, iv, tv) == [A(name, iv, tv, TRUE, 0, <<>>, "none", 0, NoAct) EXCEPT !.k = k]
Act(k, name) == [NoAct EXCEPT !.k = k, !.name = name]

Commands == {
  A("a", 2, 0, TRUE, 1, <<>>, "none", 0, NoAct),
  A("b", 0, 3, TRUE, 2, <<2>>, "continue", 0, NoAct),
  A("c", 0, 0, TRUE, 0, <<>>, "none", 1, Act("detach", "b")),
  C("detach", "a", 0, 0), C("disable", "b", 0, 0), C("enable", "b", 0, 0),
  C("freq", "", 2, 0), C("freq", "", 0, 2) }

Point(dt) == [C("sample", "", 0, 0) EXCEPT !.k = "sample"] @@ [step |-> step + 1, time |-> time + dt]

Init == /\ G = [Start(FALSE) EXCEPT !.trk.gi = 1]
        /\ hist = <<>> /\ step = 0 /\ time = 0 /\ called = 0
Apply(o) == /\ G' = Op(G, o)
            /\ hist' = Append(hist, o)
            /\ called' = called + Len(G'.log)
            /\ (Gen /\ Len(hist') = Depth => PrintT("GEN|" \o ToJson(hist')))
Next ==
  /\ Len(hist) < Depth /\ G.err = ""
  /\ \/ \E c \in Commands : Apply(c) /\ UNCHANGED <<step, time>>
     \/ \E dt \in 1..2 : Apply(Point(dt)) /\ step' = step + 1 /\ time' = time + dt
Spec == Init /\ [][Next]_vars

Sum(s) == LET RECURSIVE F(_) F(n) == IF n = 0 THEN 0 ELSE s[n] + F(n - 1) IN F(Len(s))
\* every call is counted once, and nothing is recorded that was not called
CallsCounted == called = Sum(G.cnt)
RecordsOfCalls ==
  \A k \in 1..Len(G.trk.atts) :
    LET a == G.trk.atts[k] IN
    /\ Len(a.recs) <= G.cnt[a.uid]
    /\ a.max > 0 => Len(a.recs) <= a.max
    /\ ~a.store => a.recs = <<>>
    /\ \A j \in 2..Len(a.recs) : a.recs[j-1].step < a.recs[j].step /\ a.recs[j-1].value < a.recs[j].value
    \* the last record is the last successful call
    /\ (a.recs # <<>> /\ a.fail = <<>>) => a.recs[Len(a.recs)].value = G.cnt[a.uid]
NamesUnique == \A j, k \in 1..Len(G.trk.atts) : G.trk.atts[j].name = G.trk.atts[k].name => j = k
\* in one sampling point no callback runs twice, and only enabled ones run
OncePerPoint ==
  \A j, k \in 1..Len(G.log) : G.log[j].name = G.log[k].name => j = k
RowsOrdered == \A j \in 2..Len(G.trk.rows) : G.trk.rows[j-1] < G.trk.rows[j]
=============================================================================
