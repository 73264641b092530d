---------------------------- MODULE EventLibTrace ---------------------------
(* Histories of real EventLib objects against EventLib.                     *)
EXTENDS EventLib, TraceIO
VARIABLES tr, i, G
vars == <<tr, i, G>>
ToSet(s) == { s[k] : k \in 1..Len(s) }

\* the statistics are those of the rows: events, entries, longest, shortest, and the two averages as entries again
RECURSIVE Entries(_)
Entries(rows) == IF rows = <<>> THEN 0 ELSE Len(Head(rows)) + Entries(Tail(rows))
Summary(n, rows) ==
  LET L == { Len(rows[k]) : k \in 1..Len(rows) }
      top == IF L = {} THEN 0 ELSE CHOOSE x \in L : \A y \in L : y <= x
      low == IF L = {} THEN 0 ELSE CHOOSE x \in L : \A y \in L : x <= y
  IN  <<n, Entries(rows), top, low, Entries(rows), Entries(rows)>>

Obs(H, q) ==
  LET ev == H.lib.ev  n == Len(ev) IN
  Fail("C14.events", q.ev = ev) \cup
  Fail("C14.site_index", \A s \in 1..Len(q.inv) : ToSet(q.inv[s]) = Involving(ev, s - 1)) \cup
  Fail("C14.has_table", H.lib.deps # "old" => q.has = (H.lib.deps # "none")) \cup
  (IF H.lib.deps # "current" THEN {}
   ELSE Fail("C14.dependencies", Len(q.rows) = n /\ \A k \in 0..(n - 1) :
               Needed(ev, k) \subseteq ToSet(q.rows[k + 1]) /\ ToSet(q.rows[k + 1]) \subseteq 0..(n - 1))
        \cup Fail("C14.statistics", q.st = Summary(n, q.rows)))

TInit == tr \in 1..Len(Traces) /\ i = 0 /\ G = New
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.ops)
     THEN /\ G' = G /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} }) /\ Done(tr, i)
     ELSE LET o == t.ops[i + 1] IN
          /\ G' = Op(t.orders, G, o)
          /\ Report(tr, i + 1, Fail("C14.refused", o.q.ok = Accepts(t.orders, G, o)) \cup
                               (IF o.q.ok = Accepts(t.orders, G, o) THEN Obs(G', o.q) ELSE {}))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
