---------------------------- MODULE BarrierTrace ----------------------------
(* Recorded answers of real local-barrier models.  A trace builds one model *)
(* rule by rule; every step is an offered rule or a query.                  *)
EXTENDS Barrier, TraceIO
VARIABLES tr, i, bm, lm
vars == <<tr, i, bm, lm>>

SameExact(r, q) ==
  r.type = "exact" /\ q.type = "exact" /\ r.M = q.M /\ r.pat = q.pat
  /\ Dedup(r.M \o r.E, 1) = Dedup(q.M \o q.E, 1)
Acceptable(m, o) == o.bad = "" /\ \A k \in 1..Len(m.rules) : ~SameExact(m.rules[k], o.rule)
Grow(m, o, bar) == IF Acceptable(m, o) THEN [m EXCEPT !.rules = Append(@, [o.rule EXCEPT !.bar = bar])] ELSE m

SysOf(t, m) == [n |-> t.n, mob |-> t.mob, vac |-> t.vac, ev |-> <<>>, bm |-> m]
\* direction of an arbitrary event
CanHop(t, occ, ev) ==
  \/ occ[ev.f] = t.mob[ev.f] /\ occ[ev.t] = t.vac[ev.t]
  \/ occ[ev.f] = t.vac[ev.f] /\ occ[ev.t] = t.mob[ev.t]

QClauses(t, o) ==
  LET want == BarrierOfEvent(SysOf(t, bm), bm, o.occ, o.ev)
      lab  == BarrierOfEvent(SysOf(t, lm), lm, o.occ, o.ev)
      by   == IF t.pp = "label" THEN lab ELSE want    \* the property rates are computed from
      av   == CanHop(t, o.occ, o.ev)
  IN  Fail("C09.barrier", o.got = want) \cup
      Fail("C09.property", o.lab = lab) \cup
      Fail("C09.rate", IF by = NoBarrier THEN (av => o.rate = NoBarrier)
                       ELSE o.rate = (IF av THEN by ELSE Zero)) \cup
      Fail("C09.reloaded", o.again = o.got /\ o.againlab = o.lab)

Clauses(t, o) ==
  IF o.k = "rule" THEN Fail("C09.refused", o.refused = ~Acceptable(bm, o)) ELSE QClauses(t, o)

TInit == /\ tr \in 1..Len(Traces) /\ i = 0
         /\ bm = Traces[tr].bm0 /\ lm = Traces[tr].lm0
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.ops)
     THEN /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} })
          /\ Done(tr, i) /\ UNCHANGED <<bm, lm>>
     ELSE LET o == t.ops[i + 1] IN
          /\ Report(tr, i + 1, Clauses(t, o))
          /\ bm' = IF o.k = "rule" THEN Grow(bm, o, o.rule.bar) ELSE bm
          /\ lm' = IF o.k = "rule" THEN Grow(lm, o, o.lab) ELSE lm
TSpec == TInit /\ [][TNext]_vars
=============================================================================
