------------------------------ MODULE OccTrace ------------------------------
(* Recorded histories of real occupation vectors: after every operation all *)
(* vectors, and what the questions asked of them were answered.             *)
EXTENDS Occ, TraceIO
VARIABLES tr, i, S
vars == <<tr, i, S>>
TInit == tr \in 1..Len(Traces) /\ i = 0 /\ S = <<>>
Ask(H, q) ==
  LET p == H[q.s] IN
  CASE q.k = "eq" -> Fail("C26.equal", q.a = Same(p, H[q.s2]))
    [] q.k = "alike" -> Fail("C26.equivalent", q.a = Alike(p, H[q.s2]))
    [] q.k = "match" -> Fail("C26.sites", q.w = Where(p, Basis(p.b).match) /\ q.n = Len(q.w))
    [] q.k = "mis" -> Fail("C26.sites", q.w = Where(p, Basis(p.b).mis) /\ q.n = Len(q.w))
    [] OTHER -> {}
Clauses(o) ==
  LET ok == Accepts(S, o)  H == Op(S, o) IN
  CASE o.k = "site" -> Fail("C26.sitefunctions", \A j \in 1..o.n : Len(o.w[j]) = o.n - 1 /\ \A k \in 1..(o.n - 1) : o.w[j][k] = SiteFun(o.n, j - 1, k))
    [] o.k = "value" -> Fail("C26.convert", \A n \in 1..Len(o.w) : o.w[n].y = Change(o.b, o.w[n].c, <<o.w[n].x>>)[1])
    [] o.k = "random" -> Fail("C26.random", o.a)
    [] o.k = "basis" -> Fail("C26.basis", /\ o.d.match = Basis(o.b).match /\ o.d.mis = Basis(o.b).mis
                                         /\ { o.d.vals[n] : n \in 1..Len(o.d.vals) } = Basis(o.b).vals)
    [] OTHER ->
       IF o.ok # ok THEN { IF ok THEN "C26.refused:" \o o.k ELSE "C26.accepted:" \o o.k } \cup Fail("C26.values:" \o o.k, o.S = S \/ o.ok)
       ELSE Fail("C26.values:" \o o.k, o.S = H) \cup UNION { Ask(H, o.qs[n]) : n \in 1..Len(o.qs) }
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr
  /\ IF i = Len(t.ops)
     THEN /\ i' = i + 1 /\ UNCHANGED S /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} }) /\ Done(tr, i)
     ELSE LET o == t.ops[i + 1]  bad == Clauses(o) IN
          \* a history is not followed beyond its first fault
          /\ i' = IF bad = {} THEN i + 1 ELSE Len(t.ops)
          /\ S' = IF o.k \in {"site", "random", "basis", "value"} THEN S ELSE o.S
          /\ Report(tr, i + 1, bad)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
