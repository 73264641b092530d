----------------------------- MODULE ConfigTrace ----------------------------
(* Recorded histories of real Configuration objects and files.              *)
EXTENDS Config, TraceIO
VARIABLES tr, i, G
vars == <<tr, i, G>>
Names(t) == { t.names[k] : k \in 1..Len(t.names) }
TInit == tr \in 1..Len(Traces) /\ i = 0 /\ G = New(Names(Traces[tr]))
Diff(x, y) == { n \in Fields : x[n] # y[n] }
Clauses(o) ==
  LET ok == Accepts(G, o)  H == Op(G, o) IN
  IF o.q.ok # ok THEN { "C17." \o (IF ok THEN "refused_valid:" ELSE "accepted_invalid:") \o o.k }
  ELSE IF Len(o.q.obj) # Len(H.obj) THEN {"C17.objects"}
  ELSE UNION { { "C17.value:" \o n : n \in Diff(o.q.obj[k], H.obj[k]) } : k \in 1..Len(H.obj) } \cup
       Fail("C17.unreadable_file_replaced", o.q.kept) \cup
       Fail("C17.equality", \A a, b \in 1..Len(H.obj) : o.q.eq[a][b] = (H.obj[a] = H.obj[b]))
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.ops)
     THEN /\ G' = G /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} }) /\ Done(tr, i)
     ELSE LET o == t.ops[i + 1] IN
          /\ G' = IF o.q.ok = Accepts(G, o) THEN Op(G, o) ELSE G
          /\ Report(tr, i + 1, Clauses(o))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
