--------------------------- MODULE SelectionTrace ---------------------------
(* Statistics of recorded draws of the real engine.  A trace holds a list   *)
(* of groups, each one configuration (fixed weights):                       *)
(*   w      integer weights (rates) of the events     n  number of draws    *)
(*   c      how often each event was executed                               *)
(*   bins   histogram of exp(-dt*R) over equal bins (R the total rate)      *)
(*   low    per event, how often it came with exp(-dt*R) < 1/2              *)
(*   neg    number of draws with a waiting time that is not positive        *)
EXTENDS Selection, TraceIO
VARIABLES tr, i
vars == <<tr, i>>

GroupClauses(g) ==
  Fail("C03.unavailable", \A e \in 1..Len(g.w) : g.w[e] = 0 => g.c[e] = 0) \cup
  Fail("C03.count", Total(g.c, Len(g.c)) = g.n) \cup
  Fail("C03.choice", \A e \in 1..Len(g.w) : Plausible(g.c[e], g.n, g.w[e], W(g.w))) \cup
  Fail("C03.positive_wait", g.neg = 0) \cup
  Fail("C03.wait", \A b \in 1..Len(g.bins) : Plausible(g.bins[b], g.n, 1, Len(g.bins))) \cup
  Fail("C03.independent", \A e \in 1..Len(g.w) : Plausible(g.low[e], g.c[e], 1, 2))

Bad(k, j) ==
  LET t == Traces[k] IN
  IF j = 0 THEN Fail("C03.no_event_refused", t.refused) \cup
                { "*.raised:" \o x : x \in { t.raised } \ {""} }
  ELSE GroupClauses(t.groups[j])

TInit == tr \in 1..Len(Traces) /\ i = -1
TNext ==
  /\ i < Len(Traces[tr].groups)
  /\ i' = i + 1 /\ tr' = tr
  /\ Report(tr, i', Bad(tr, i'))
  /\ (i' = Len(Traces[tr].groups) => Done(tr, i'))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
