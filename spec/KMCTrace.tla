------------------------------ MODULE KMCTrace ------------------------------
(* Checks recorded executions of the real engine against KMCOps.            *)
(* A trace: [sys, init |-> obs, steps |-> << [e, dt, cand, obs] >>, fin]     *)
(* e = 0 means the executed event was not recorded: it is then any listed   *)
(* hop that explains the observed occupation change.                        *)
EXTENDS KMCOps, TraceIO

VARIABLES tr, i
vars == <<tr, i>>

T(k)      == Traces[k]
Obs(k, j) == IF j = 0 THEN T(k).init ELSE T(k).steps[j].obs

\* events that explain p -> q (all listed hops between the two changed sites)
Explains(sys, p, q, e) == Dir(sys, p.occ, e) # 0 /\ q.occ = Apply(sys, p.occ, e)

StepClauses(sys, p, a, q) ==
  LET es    == IF a.e # 0 THEN {a.e} ELSE { e \in Events(sys) : Explains(sys, p, q, e) }
      avail == es # {} /\ \A e \in es : Dir(sys, p.occ, e) # 0
      e     == CHOOSE x \in es : TRUE
      trk   == q.trk /\ p.trk
  IN
  Fail("C01.available", avail) \cup
  Fail("C01.occupation", avail => q.occ = Apply(sys, p.occ, e)) \cup
  Fail("C01.two_sites", Cardinality({ s \in Sites(sys) : p.occ[s] # q.occ[s] }) <= 2) \cup
  Fail("C02.fresh", sys.opaque \/ q.rates = Rates(sys, q.occ)) \cup
  Fail("C02.rebuilt", q.rates = q.fresh) \cup
  Fail("C02.selection_table", q.cumok) \cup
  Fail("C04.step", q.step = p.step + 1) \cup
  Fail("C04.clock", IF a.dt >= 0 THEN q.clock = p.clock + a.dt ELSE q.clockok) \cup
  (IF ~(trk /\ avail) THEN {} ELSE
     LET known == \E k \in 1..Len(p.ions) : p.ions[k] = Src(sys, p.occ, e)
     IN  Fail("C05.known_ion", known) \cup
         (IF ~known THEN {} ELSE
            Fail("C05.identity", q.ions = NextIons(sys, p.occ, e, p.ions)) \cup
            Fail("C05.hop_count", q.hops = NextHops(sys, p.occ, e, p.ions, p.hops)) \cup
            Fail("C05.displacement", q.disp \in NextDisps(sys, p.occ, e, p.ions, p.disp))))

ObsClauses(sys, q) ==
  (IF ~q.trk THEN {} ELSE
     Fail("C05.bijection",
          /\ { q.ions[k] : k \in 1..Len(q.ions) } = MobSites(sys, q.occ)
          /\ Cardinality(MobSites(sys, q.occ)) = Len(q.ions)) \cup
     Fail("C05.total", Len(q.hops) = Len(q.ions) /\ Len(q.disp) = Len(q.ions)))

InitClauses(sys, q) ==
  ObsClauses(sys, q) \cup
  Fail("C02.initial", sys.opaque \/ q.rates = Rates(sys, q.occ)) \cup
  Fail("C02.selection_table", q.cumok)

\* what the end of the run has to look like
FinClauses(t) ==
  LET f == t.fin  q == Obs(tr, Len(t.steps))
  IN
  IF f.kind = "none" THEN {} ELSE
  Fail("C04.pass_length", f.nprod = f.passes * t.sys.np) \cup
  Fail("C04.equilibration_steps", f.firststep = f.step0 + f.eq * t.sys.np) \cup
  Fail("C04.equilibration_clock", f.firstclockok) \cup
  Fail("C01.equilibration_legal", f.eqlegal) \cup
  Fail("C05.hop_total", SumSeq(f.hops, Len(f.hops)) = f.nprod) \cup
  Fail("C01.conserved",
       /\ Cardinality(MobSites(t.sys, q.occ)) = Cardinality(MobSites(t.sys, f.occ0))
       /\ \A s \in Sites(t.sys) :
            ~(IsMob(t.sys, q.occ, s) \/ IsVac(t.sys, q.occ, s)) => q.occ[s] = f.occ0[s])

Bad(k, j) ==
  LET t == T(k)
  IN  (IF j = 0 THEN InitClauses(t.sys, t.init)
       ELSE StepClauses(t.sys, Obs(k, j-1), t.steps[j], Obs(k, j))
            \cup ObsClauses(t.sys, Obs(k, j)))
      \cup (IF j = Len(t.steps) THEN FinClauses(t) ELSE {})
      \cup (IF j = Len(t.steps) THEN { "*.raised:" \o x : x \in { t.raised } \ {""} } ELSE {})

TInit == tr \in 1..Len(Traces) /\ i = -1
TNext ==
  /\ i < Len(T(tr).steps)
  /\ i' = i + 1 /\ tr' = tr
  /\ Report(tr, i', Bad(tr, i'))
  /\ (i' = Len(T(tr).steps) => Done(tr, i'))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
