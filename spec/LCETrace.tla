------------------------------ MODULE LCETrace ------------------------------
(* Recorded runs of real kMC engines with composite models: rates of every  *)
(* event, cached external occupation and external runtime after every hop.  *)
EXTENDS LCE, TraceIO
VARIABLES tr, i, occ
vars == <<tr, i, occ>>

\* recorded barriers are in 1/1000 meV, Barrier2 in 1/2 meV; rounding of a
\* double precision logarithm is far below one unit
Want(sys, o, e) == LET b == Rate2(sys, o, e) IN IF b = NoRate THEN NoRate ELSE 500 * b
Name(sys, n) == (IF sys.site.kind = "ext" THEN "C11." ELSE "C10.") \o n

Obs(t, o, ob) ==
  LET sys == t.sys IN
  Fail("C01.occupation", ob.occ = o) \cup
  Fail(Name(sys, "rate"), \A e \in Events(sys) : ob.rates[e] = Want(sys, o, e)) \cup
  Fail("C10.kra", \A e \in Events(sys) : ob.kra[e] = LCEValue(sys.kra, Local(o, sys.ev[e]))) \cup
  Fail("C02.stale", ob.rates = ob.fresh) \cup
  (IF sys.site.kind # "ext" THEN {}
   ELSE Fail("C11.external_occupation", ob.ext = Ext(sys.site.ext, o)) \cup
        Fail("C11.runtime", ob.mirror = Ext(sys.site.ext, o)))

\* the changes handed to the external code on an accepted event
ChangesOf(sys, o, e) ==
  LET p == Apply(sys, o, e)  x == sys.site.ext
      two == <<sys.ev[e].f, sys.ev[e].t>>
      one(s) == <<s, x.map[s], o[s], p[s], x.val[s][o[s] + 1], x.val[s][p[s] + 1]>>
  IN  { one(two[k]) : k \in { k \in 1..2 : x.val[two[k]][o[two[k]] + 1] # x.val[two[k]][p[two[k]] + 1] } }
StepOk(t, o, st) ==
  IF t.sys.site.kind # "ext" \/ ~st.haschg THEN {}
  ELSE Fail("C11.changes", { st.chg[k] : k \in 1..Len(st.chg) } = ChangesOf(t.sys, o, st.e)
                           /\ Len(st.chg) = Cardinality(ChangesOf(t.sys, o, st.e)))

TInit == tr \in 1..Len(Traces) /\ i = 0 /\ occ = Traces[tr].occ0
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.steps) + 1 /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.steps) + 1
     THEN /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} })
          /\ Done(tr, i) /\ UNCHANGED occ
     ELSE IF i = 0
     THEN /\ Report(tr, 0, IF t.refuse.want THEN Fail("C11.refused", t.refuse.got)
                           ELSE Fail("C11.accepted", ~t.refuse.got) \cup
                                (IF ~t.hasinit THEN {} ELSE Obs(t, occ, t.init)))
          /\ UNCHANGED occ
     ELSE LET st == t.steps[i] IN
          IF Dir(t.sys, occ, st.e) = 0
          THEN Report(tr, i, {"C10.driver"}) /\ UNCHANGED occ
          ELSE /\ occ' = Apply(t.sys, occ, st.e)
               /\ Report(tr, i, StepOk(t, occ, st) \cup Obs(t, occ', st.obs))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
