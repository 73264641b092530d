--------------------------- MODULE ModelStoreTrace --------------------------
(* Recorded histories of real models and model files.  Every object is      *)
(* questioned after every operation; equal meaning gives equal answers.     *)
EXTENDS ModelStore, TraceIO
VARIABLES tr, i, G, memo
vars == <<tr, i, G, memo>>
Names(t) == { t.names[k] : k \in 1..Len(t.names) }
TInit == tr \in 1..Len(Traces) /\ i = 0 /\ G = New(Names(Traces[tr])) /\ memo = <<>>
Cnt(t) == t.cnt
Told(H, o) == [ key \in { Key(H, k) : k \in 1..Len(H.obj) } |-> o.q.obj[CHOOSE k \in 1..Len(H.obj) : Key(H, k) = key] ]
Clauses(t, o) ==
  LET ok == Accepts(Cnt(t), G, o)  H == Op(Cnt(t), G, o) IN
  IF ~Defined(G.file[o.f], o) THEN { "*.driver:undefined" }
  ELSE IF o.q.ok # ok THEN { IF ok THEN "C19.refused:" \o o.k ELSE "C19.accepted:" \o o.k }
  ELSE IF Len(o.q.obj) # Len(H.obj) THEN { "C19.objects" }
  ELSE LET all == memo @@ Told(H, o) IN
       UNION { Fail("C19.meaning:" \o o.k, o.q.obj[k] = all[Key(H, k)]) : k \in 1..Len(H.obj) } \cup
       UNION { Fail("C19.class", o.q.cls[k] = H.obj[k].k) : k \in 1..Len(H.obj) }
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.ops)
     THEN /\ UNCHANGED <<G, memo>> /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} }) /\ Done(tr, i)
     ELSE LET o == t.ops[i + 1]  bad == Clauses(t, o)
              H == IF o.q.ok = Accepts(Cnt(t), G, o) THEN Op(Cnt(t), G, o) ELSE G IN
          /\ G' = H
          /\ memo' = IF Len(o.q.obj) = Len(H.obj) THEN memo @@ Told(H, o) ELSE memo
          /\ Report(tr, i + 1, bad)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
