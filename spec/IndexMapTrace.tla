--------------------------- MODULE IndexMapTrace ----------------------------
(* Recorded answers of real ActiveSiteOrder objects.                        *)
EXTENDS IndexMap, TraceIO
VARIABLES tr, i
vars == <<tr, i>>

ToSet(s) == { s[k] : k \in 1..Len(s) }

FullOk(c, f) ==
  /\ Len(f) = NFull(c)
  /\ \A k \in 0..(NFull(c) - 1) :
       LET x == f[k + 1] IN
       /\ x.prim = PrimOf(c, k) /\ x.orig = k /\ x.sp = c.prim[x.prim + 1].sp
       /\ x.cell \in Cells(c) /\ PosOk(c, x.prim, x.cell, x.pos)
       /\ x.cell = f[(k % NCells(c)) + 1].cell
  /\ \A p \in 0..(NPrim(c) - 1) :
       Cardinality({ f[(p * NCells(c)) + q].cell : q \in 1..NCells(c) }) = NCells(c)
PropsOk(c, f) == \A k \in 0..(NFull(c) - 1) : f[k + 1].act = ActIdx(c, k) /\ f[k + 1].pact = PActIdx(c, f[k + 1].prim)
ActOk(c, f, g) ==
  /\ Len(g) = NActive(c)
  /\ \A a \in 0..(NActive(c) - 1) :
       LET x == g[a + 1]  y == f[FullOf(c, a) + 1] IN
       x.act = a /\ x.prim = y.prim /\ x.cell = y.cell /\ x.orig = y.orig /\ x.pos = y.pos /\ x.sp = y.sp
MapsOk(c, o) ==
  /\ o.nprim = NPrim(c) /\ o.nfull = NFull(c) /\ o.nact = NActive(c) /\ o.shape = c.shape
  /\ o.a2o = A2O(c) /\ o.a2p = A2P(c)
  /\ ToSet(o.fixed) = (0..(NFull(c) - 1)) \ ActiveFull(c) /\ Len(o.fixed) = Cardinality(ToSet(o.fixed))
  /\ o.pact = [ a \in 1..Len(o.pact) |-> CHOOSE p \in 0..(NPrim(c) - 1) : PActIdx(c, p) = a - 1 ]
  /\ Len(o.pact) = Cardinality({ p \in 0..(NPrim(c) - 1) : PrimActive(c, p) })
  /\ ToSet(o.o2a) = { <<FullOf(c, a), a>> : a \in 0..(NActive(c) - 1) }
  /\ ToSet(o.p2a) = { <<p, PActIdx(c, p)>> : p \in { p \in 0..(NPrim(c) - 1) : PrimActive(c, p) } }
  /\ o.sbp = Space(c).sp /\ o.abp = Space(c).al

SelOk(c, s) ==
  LET n == Len(s.inp) IN
  IF n = NActive(c) THEN s.ok /\ s.out = s.inp
  ELSE IF n = NFull(c) THEN s.ok /\ s.out = Select(c, s.inp) ELSE ~s.ok
IdxOk(c, s) == s.ok = (\A k \in 1..Len(s.inp) : s.inp[k] \in 0..(NActive(c) - 1))
\* a structure holding the full sites s.sites (in that order) reduced to its active sites
FiltOk(c, s) ==
  LET act == { ActIdx(c, s.sites[k]) : k \in 1..Len(s.sites) } \ {-1} IN
  /\ s.ok = s.want
  /\ s.ok => /\ Len(s.got) = Cardinality(act) /\ ToSet(s.got) = act
             /\ \A k \in 1..(Len(s.got) - 1) : s.got[k] < s.got[k + 1]
             /\ s.where = [ k \in 1..Len(s.got) |-> FullOf(c, s.got[k]) ]
\* the hop-state lookup built on the order: codes are positions in the site's own list
Code(al, x) == IF \E k \in 1..Len(al) : al[k] = x THEN (CHOOSE k \in 1..Len(al) : al[k] = x) - 1 ELSE -1
LookOk(c, o) ==
  /\ o.mob = [ a \in 1..NActive(c) |-> Code(c.prim[A2P(c)[a] + 1].allowed, "Na") ]
  /\ o.vac = [ a \in 1..NActive(c) |-> Code(c.prim[A2P(c)[a] + 1].allowed, "X") ]

Bad(t) ==
  LET c == t.c  o == t.o IN
  IF NActive(c) = 0 THEN Fail("C12.no_active_sites", ~t.built)
  ELSE IF ~t.built THEN {"C12.built"}
  ELSE Fail("C12.full_structure", FullOk(c, o.full)) \cup Fail("C12.maps", MapsOk(c, o)) \cup
       (IF FullOk(c, o.full) THEN Fail("C12.site_properties", PropsOk(c, o.full)) \cup
                                  Fail("C12.active_structure", ActOk(c, o.full, o.act)) ELSE {}) \cup
       Fail("C12.select", \A k \in 1..Len(t.sel) : SelOk(c, t.sel[k])) \cup
       Fail("C12.index_check", \A k \in 1..Len(t.idx) : IdxOk(c, t.idx[k])) \cup
       Fail("C12.filter", \A k \in 1..Len(t.filt) : FiltOk(c, t.filt[k])) \cup
       Fail("C12.hop_codes", LookOk(c, o)) \cup
       Fail("C12.same_order", \A k \in 1..Len(t.same) : t.same[k].ok = (Space(t.same[k].c) = Space(c))) \cup
       Fail("C12.reload", t.reload = o.maps)

TInit == tr \in 1..Len(Traces) /\ i = 0
TNext ==
  LET t == Traces[tr] IN
  /\ i <= 1 /\ tr' = tr /\ i' = i + 1
  /\ IF i = 0 THEN Report(tr, 0, IF t.raised # "" THEN { "*.raised:" \o t.raised } ELSE Bad(t)) ELSE Done(tr, i)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
