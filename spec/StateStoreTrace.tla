--------------------------- MODULE StateStoreTrace --------------------------
(* Recorded histories of real State objects and state files.                *)
EXTENDS StateStore, TraceIO
VARIABLES tr, i, G
vars == <<tr, i, G>>

Names(t) == { t.names[k] : k \in 1..Len(t.names) }
TInit == tr \in 1..Len(Traces) /\ i = 0 /\ G = New(Names(Traces[tr]))
Clauses(t, o) ==
  LET ok == Accepts(t.c, G, o)  H == Op(t.c, G, o) IN
  Fail("C16.refused", o.q.ok = ok) \cup
  (IF o.q.ok # ok THEN {} ELSE
   Fail("C16.objects", Len(o.q.obj) = Len(H.obj)) \cup
   (IF Len(o.q.obj) # Len(H.obj) THEN {} ELSE
    UNION { LET x == o.q.obj[k]  y == H.obj[k] IN
            Fail("C16.occupations", x.occ = y.occ) \cup Fail("C16.time", x.time = y.time) \cup
            Fail("C16.step", x.step = y.step) : k \in 1..Len(H.obj) }))
\* a resumed simulation against the one that went on without a break
Resume(t) ==
  UNION { Fail("C16.resume_state", x.a.occ = x.b.occ /\ x.a.time = x.b.time /\ x.a.step = x.b.step) \cup
          Fail("C16.resume_rates", x.a.rates = x.b.rates) : x \in { t.pairs[k] : k \in 1..Len(t.pairs) } }
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.ops)
     THEN /\ G' = G /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} } \cup Resume(t)) /\ Done(tr, i)
     ELSE LET o == t.ops[i + 1] IN
          /\ G' = IF o.q.ok = Accepts(t.c, G, o) THEN Op(t.c, G, o) ELSE G
          /\ Report(tr, i + 1, Clauses(t, o))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
