---------------------------- MODULE ScaffoldTrace ----------------------------
(* Recorded histories of the real init commands in a real directory tree.   *)
EXTENDS Scaffold, TraceIO
VARIABLES tr, i, S
vars == <<tr, i, S>>
Names(t) == { t.names[k] : k \in 1..Len(t.names) }
Above(t) == [p \in Names(t) |-> { t.up[p][k] : k \in 1..Len(t.up[p]) }]
TInit == tr \in 1..Len(Traces) /\ i = 0 /\ S = [p \in Names(Traces[tr]) |-> None]
Wrong(got, want) ==
  IF got.kind # want.kind THEN { "C27.entry:" \o want.kind \o "->" \o got.kind }
  ELSE IF got.kind = "user" THEN Fail("C27.text", got.tok = want.tok)
  ELSE IF got.kind = "input" THEN { "C27.value:" \o n : n \in { m \in Fields : got.val[m] # want.val[m] } }
  ELSE {}
Clauses(o, up) ==
  LET ok == Accepts2(S, up, o)  T == Tree(S, up, o) IN
  IF o.q.ok # ok THEN { "C27." \o (IF ok THEN "refused:" ELSE "accepted:") \o o.k }
  ELSE UNION { Wrong(o.q.tree[p], T[p]) : p \in DOMAIN T } \cup { "C27.stray" : x \in { k \in 1..o.q.stray : TRUE } } \cup
       IF o.k \in {"load", "start", "args"} /\ ok
       THEN { "C27." \o o.k \o ":" \o n : n \in { m \in Fields : o.q.val[m] # Setup(S, o)[m] } } ELSE {}
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.ops)
     THEN /\ S' = S /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} }) /\ Done(tr, i)
     ELSE LET o == t.ops[i + 1] IN
          /\ S' = IF o.q.ok = Accepts2(S, Above(t), o) THEN Tree(S, Above(t), o) ELSE S
          /\ Report(tr, i + 1, Clauses(o, Above(t)))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
