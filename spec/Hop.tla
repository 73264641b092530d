-------------------------------- MODULE Hop --------------------------------
(* Occupation semantics of a lattice-gas kMC system.                        *)
(*                                                                          *)
(* A system `sys` is a record with (all site/event numbers are 1-based)     *)
(*   n    number of active sites                                            *)
(*   mob  <<code>>  state code of the mobile ion on each site, -1 if none   *)
(*   vac  <<code>>  state code of the vacancy on each site, -1 if none      *)
(*   ev   << [f, t, env] >>  listed hops: endpoints and local environment   *)
(* An occupation `occ` is a sequence of n state codes.                      *)
EXTENDS Integers, Sequences, FiniteSets

Sites(sys)  == 1..sys.n
Events(sys) == 1..Len(sys.ev)

IsMob(sys, occ, s) == sys.mob[s] # -1 /\ occ[s] = sys.mob[s]
IsVac(sys, occ, s) == sys.vac[s] # -1 /\ occ[s] = sys.vac[s]

\* +1: ion on f and vacancy on t;  -1: the reverse;  0: not executable
Dir(sys, occ, e) ==
  LET f == sys.ev[e].f  t == sys.ev[e].t
  IN  IF f # t /\ IsMob(sys, occ, f) /\ IsVac(sys, occ, t) THEN 1
      ELSE IF f # t /\ IsVac(sys, occ, f) /\ IsMob(sys, occ, t) THEN -1
      ELSE 0

Avail(sys, occ) == { e \in Events(sys) : Dir(sys, occ, e) # 0 }

Src(sys, occ, e) == IF Dir(sys, occ, e) = 1 THEN sys.ev[e].f ELSE sys.ev[e].t
Dst(sys, occ, e) == IF Dir(sys, occ, e) = 1 THEN sys.ev[e].t ELSE sys.ev[e].f

\* The occupation after the hop: the source holds its own vacancy code, the
\* destination its own mobile-ion code, nothing else moves.
Apply(sys, occ, e) ==
  LET s == Src(sys, occ, e)  d == Dst(sys, occ, e)
  IN  [occ EXCEPT ![s] = sys.vac[s], ![d] = sys.mob[d]]

MobSites(sys, occ) == { s \in Sites(sys) : IsMob(sys, occ, s) }
VacSites(sys, occ) == { s \in Sites(sys) : IsVac(sys, occ, s) }

\* Sites whose occupation can influence the rate of event e
Involved(sys, e) ==
  {sys.ev[e].f, sys.ev[e].t} \cup { sys.ev[e].env[k] : k \in 1..Len(sys.ev[e].env) }

\* Events whose rate may change when e fires
Deps(sys, e) == { g \in Events(sys) : Involved(sys, g) \cap Involved(sys, e) # {} }
=============================================================================
