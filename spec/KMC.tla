-------------------------------- MODULE KMC --------------------------------
(* The kMC engine as a state machine (operators: module KMCOps).            *)
EXTENDS KMCOps

---------------------------------------------------------------------------
VARIABLES sys, occ, cache, phase, eqleft, left, step, clock, ions, hops, disp, occ0
vars == <<sys, occ, cache, phase, eqleft, left, step, clock, ions, hops, disp, occ0>>

CONSTANTS Systems,      \* the systems to start from
          Starts(_),    \* initial occupations of a system
          EqSteps, ProdSteps, DTs

Init ==
  /\ sys \in Systems
  /\ occ \in Starts(sys)
  /\ cache = Rates(sys, occ)
  /\ phase = "eq"
  /\ eqleft = EqSteps /\ left = ProdSteps
  /\ step = 0 /\ clock = 0
  /\ ions = <<>> /\ hops = <<>> /\ disp = <<>>
  /\ occ0 = occ

\* Rate bookkeeping shared by both phases
Fire(e) ==
  /\ cache[e] # Zero
  /\ occ' = Apply(sys, occ, e)
  /\ cache' = [g \in Events(sys) |->
                 IF g \in Refresh(sys, e) THEN Rate(sys, occ', g) ELSE cache[g]]
  /\ step' = step + 1

Equilibrate(e) ==
  /\ phase = "eq" /\ eqleft > 0
  /\ Fire(e)
  /\ eqleft' = eqleft - 1
  /\ UNCHANGED <<sys, phase, left, clock, ions, hops, disp, occ0>>

StartProduction ==
  /\ phase = "eq" /\ eqleft = 0
  /\ phase' = "prod"
  /\ ions' = SortedSeq(MobSites(sys, occ))
  /\ hops' = [i \in 1..Len(ions') |-> 0]
  /\ disp' = [i \in 1..Len(ions') |-> Zero3]
  /\ occ0' = occ
  /\ UNCHANGED <<sys, occ, cache, eqleft, left, step, clock>>

Produce(e, dt) ==
  /\ phase = "prod" /\ left > 0
  /\ Fire(e)
  /\ ions' = NextIons(sys, occ, e, ions)
  /\ hops' = NextHops(sys, occ, e, ions, hops)
  /\ disp' \in NextDisps(sys, occ, e, ions, disp)
  /\ clock' = clock + dt
  /\ left' = left - 1
  /\ UNCHANGED <<sys, phase, eqleft, occ0>>

Next ==
  \/ \E e \in Events(sys) : Equilibrate(e)
  \/ StartProduction
  \/ \E e \in Events(sys), dt \in DTs : Produce(e, dt)

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties of the design *)

\* C02: whatever has happened, the rates held are those of this configuration
Fresh == cache = Rates(sys, occ)

\* C01: the multiset of what sits where is only changed by ion/vacancy exchange
Conserved ==
  /\ Cardinality(MobSites(sys, occ)) = Cardinality(MobSites(sys, occ0))
  /\ Cardinality(VacSites(sys, occ)) = Cardinality(VacSites(sys, occ0))
  /\ \A s \in Sites(sys) :
        ~(IsMob(sys, occ, s) \/ IsVac(sys, occ, s)) => occ[s] = occ0[s]

\* C04
ClockOnlyInProduction == phase = "eq" => clock = 0
StepCount == step = (EqSteps - eqleft) + (ProdSteps - left)

\* C05
Tracked ==
  phase = "prod" =>
    /\ { ions[k] : k \in 1..Len(ions) } = MobSites(sys, occ)
    /\ \A j, k \in 1..Len(ions) : ions[j] = ions[k] => j = k
    /\ SumSeq(hops, Len(hops)) = ProdSteps - left

\* the accumulated displacement of an ion is its position change modulo the lattice
DispConsistent ==
  phase = "prod" =>
    LET start == SortedSeq(MobSites(sys, occ0))
        Big(v) == { VAdd(v, VAdd(VMul(i, sys.L[1]), VAdd(VMul(j, sys.L[2]), VMul(k, sys.L[3])))) :
                     i \in -2..2, j \in -2..2, k \in -2..2 }
    IN  \A k \in 1..Len(ions) :
          disp[k] \in Big(VSub(sys.pos[ions[k]], sys.pos[start[k]]))

\* C01: only listed, available hops ever execute; exactly two sites change
HopStep ==
  occ' # occ =>
    /\ \E e \in Events(sys) : Dir(sys, occ, e) # 0 /\ occ' = Apply(sys, occ, e)
    /\ Cardinality({ s \in Sites(sys) : occ[s] # occ'[s] }) = 2
HopSteps == [][HopStep]_vars

\* C04: time never runs backwards
Monotone == [][clock' >= clock /\ step' >= step]_vars
=============================================================================
