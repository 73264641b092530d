------------------------------ MODULE CifTrace ------------------------------
(* Recorded loads of crystal files, supercells, site lookups, neighbours.   *)
EXTENDS Cif, TraceIO
VARIABLES tr, i
vars == <<tr, i>>
Comp(c) == [e \in { c[j].e : j \in 1..Len(c) } |-> (CHOOSE r \in { c[j] : j \in 1..Len(c) } : r.e = e).n]
Bare(s) == [x |-> s.x, label |-> s.label, comp |-> Comp(s.comp)]
Ids(s) == 1..Len(s)
\* numbering: every site its own number, in the order of the file
Numbered(F, s) ==
  LET L == TLCEval(Listed(F)) IN
  /\ { s[j].id : j \in Ids(s) } = 0..(Len(s) - 1)
  /\ Len(L) = Len(s) => \A j \in Ids(s) : LET e == L[s[j].id + 1] IN s[j].x = e.x /\ s[j].seq = e.seq
LoadClauses(t, o) ==
  LET F == t.F  want == TLCEval(SitesOf(F))  s == o.sites IN
  IF ~o.ok THEN Fail("C25.refused", want = {})
  ELSE Fail("C25.sites", Len(s) = Cardinality(want) /\ { Bare(s[j]) : j \in Ids(s) } = want) \cup
       Fail("C25.numbers", Numbered(F, s)) \cup Fail("C25.repeat", o.same) \cup
       Fail("C25.equivalent", o.k = "sym" =>
         \A a, b \in Ids(s) : (s[a].eq = s[b].eq) = (s[a].x \in Orbit(F, s[b].x)))
Base(t, id) == CHOOSE s \in { t.base[j] : j \in 1..Len(t.base) } : s.id = id
Times(F, v) == [k \in 1..3 |-> F.N * v[k]]
SuperClauses(t, o) ==
  LET F == t.F  s == o.sites IN
  Fail("C25.supercell:count", Len(s) = Size(o.M) * Len(t.base)) \cup
  \* each site is where its number and its cell say, and no cell is repeated
  Fail("C25.supercell:place", \A j \in Ids(s) :
    LET b == Base(t, s[j].id) IN
    /\ s[j].label = b.label /\ s[j].seq = b.seq /\ Comp(s[j].comp) = Comp(b.comp)
    /\ Whole(o.M, Minus(s[j].x, [k \in 1..3 |-> b.x[k] + (F.N * s[j].cell[k])]), F.N)) \cup
  Fail("C25.supercell:cells", \A j, k \in Ids(s) :
    (j # k /\ s[j].id = s[k].id) => ~Whole(o.M, Minus(s[j].cell, s[k].cell), 1)) \cup
  Fail("C25.supercell:box", o.diag => \A j \in Ids(s) : \A k \in 1..3 : s[j].cell[k] \in 0..(o.M[k][k] - 1))
IndexClauses(o) ==
  LET s == o.sites IN
  Fail("C25.index", \A e \in { o.idx[n] : n \in 1..Len(o.idx) } :
    (e.j \in Ids(s) /\ s[e.j].cell = e.cell /\ s[e.j].label = e.label /\ s[e.j].id = e.id)) \cup
  Fail("C25.index", Len(o.idx) = Len(s)) \cup
  Fail("C25.index", Cardinality({ o.idx[n].j : n \in 1..Len(o.idx) }) = Len(s))
FindClauses(o) ==
  LET s == o.sites
      hit == { j \in Ids(s) : s[j].label = o.label /\ s[j].seq = o.seq /\ (o.anycell \/ s[j].cell = o.cell) } IN
  Fail("C25.find", IF hit = {} THEN ~o.ok ELSE o.ok /\ o.j \in hit /\ \A h \in hit : o.j <= h)
\* neighbours of site j within the window of its pair of elements
NearClauses(t, o) ==
  LET F == t.F
      me == t.base[o.j]
      win(e) == { o.win[n] : n \in { m \in 1..Len(o.win) : (o.win[m].a = me.el /\ o.win[m].b = e) \/ (o.win[m].b = me.el /\ o.win[m].a = e) } }
      d2(k, im) == Len2(Point(F, Minus([q \in 1..3 |-> t.base[k].x[q] + (F.N * im[q])], me.x)))
      want == TLCEval({ [j |-> k, im |-> <<im[1], im[2], im[3]>>] : k \in 1..Len(t.base), im \in Images(3) })
      hit == TLCEval({ p \in want : d2(p.j, p.im) > 0 /\ \E w \in win(t.base[p.j].el) : w.lo < d2(p.j, p.im) /\ d2(p.j, p.im) < w.hi })
  IN  Fail("C25.neighbours", { [j |-> o.near[n].j, im |-> o.near[n].im] : n \in 1..Len(o.near) } = hit /\ Len(o.near) = Cardinality(hit)) \cup
      Fail("C25.neighbours:identity", \A n \in 1..Len(o.near) : LET b == t.base[o.near[n].j] IN
        o.near[n].label = b.label /\ o.near[n].seq = b.seq /\ o.near[n].id = b.id)
Clauses(t, o) ==
  CASE o.k \in {"load", "sym"} -> LoadClauses(t, o)
    [] o.k = "super" -> SuperClauses(t, o)
    [] o.k = "index" -> IndexClauses(o)
    [] o.k = "find" -> FindClauses(o)
    [] o.k = "near" -> NearClauses(t, o)
    [] OTHER -> {}
TInit == tr \in 1..Len(Traces) /\ i = 0
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.ops)
     THEN /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} }) /\ Done(tr, i)
     ELSE Report(tr, i + 1, Clauses(t, t.ops[i + 1]))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
