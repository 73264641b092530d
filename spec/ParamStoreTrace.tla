--------------------------- MODULE ParamStoreTrace --------------------------
(* Recorded histories of real parameter objects, fits and their files.      *)
(* After every operation: all objects, and what a reader finds in each file.*)
EXTENDS ParamStore, TraceIO
VARIABLES tr, i, G, memo
vars == <<tr, i, G, memo>>
Names(t) == { t.names[k] : k \in 1..Len(t.names) }
TInit == tr \in 1..Len(Traces) /\ i = 0 /\ G = New(Names(Traces[tr])) /\ memo = <<>>
Fitted(o) == o.k = "fit" /\ o.q.ok
Clauses(o) ==
  LET ok == Accepts(G, o)  H == Op(G, o) IN
  IF o.q.ok # ok THEN { IF ok THEN "C20.refused:" \o o.k ELSE "C20.accepted:" \o o.k }
  ELSE Fail("C20.record:" \o o.k, o.q.rec = H.rec) \cup
       Fail("C20.history:" \o o.k, o.q.his = H.his) \cup
       UNION { Fail("C20.file:" \o o.k, /\ (o.q.file[n].kind = H.file[n].kind \/ (IsHis(o.q.file[n]) /\ IsHis(H.file[n])))
                                        /\ o.q.file[n].v = H.file[n].v) : n \in DOMAIN H.file } \cup
       (IF ~Fitted(o) THEN {} ELSE
        Fail("C20.reproducible", o.key \in DOMAIN memo => memo[o.key] = o.core) \cup
        Fail("C20.bound", o.bound) \cup Fail("C20.consistent", o.sound))
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.ops)
     THEN /\ UNCHANGED <<G, memo>> /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} }) /\ Done(tr, i)
     ELSE LET o == t.ops[i + 1] IN
          /\ G' = IF o.q.ok = Accepts(G, o) THEN Op(G, o) ELSE G
          /\ memo' = IF Fitted(o) THEN memo @@ (o.key :> o.core) ELSE memo
          /\ Report(tr, i + 1, Clauses(o))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
