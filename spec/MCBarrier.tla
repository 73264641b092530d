------------------------------ MODULE MCBarrier ------------------------------
(* Every ordered list of up to MaxRules rules from a small catalogue, on     *)
(* every occupation of a five-site system: first match wins, later rules     *)
(* never disturb an earlier match, and a model without far-looking rules is  *)
(* blind to sites its event does not list.                                   *)
EXTENDS Barrier
CONSTANT MaxRules
VARIABLES rules, occ, e
vars == <<rules, occ, e>>

R0 == [type |-> "constant", hasM |-> FALSE, M |-> <<>>, hasE |-> FALSE, E |-> <<>>,
       sel |-> "local_env", sites |-> <<>>, pat |-> <<>>, st |-> 0, spp |-> <<>>,
       lo |-> 0, hi |-> 99, bar |-> 0]
Catalogue == {
  [R0 EXCEPT !.hasM = TRUE, !.M = <<1, 2>>, !.bar = 100],
  [R0 EXCEPT !.type = "exact", !.hasM = TRUE, !.M = <<1, 2>>, !.hasE = TRUE, !.E = <<3, 4>>, !.pat = <<0, 1, 0, 2>>, !.bar = 110],
  [R0 EXCEPT !.type = "pattern", !.sel = "from", !.pat = <<0>>, !.bar = 120],
  [R0 EXCEPT !.type = "pattern", !.sel = "local_env", !.pat = <<-1, 2>>, !.bar = 130],
  [R0 EXCEPT !.type = "state_count", !.sel = "canonical", !.st = 0, !.lo = 2, !.bar = 140],
  [R0 EXCEPT !.type = "state_count", !.sel = "all", !.st = 1, !.lo = 1, !.hi = 1, !.bar = 150],
  [R0 EXCEPT !.type = "species_count", !.sel = "local_env", !.spp = <<"Mg">>, !.lo = 1, !.bar = 160],
  [R0 EXCEPT !.type = "pattern", !.sel = "explicit", !.sites = <<5>>, !.pat = <<1>>, !.bar = 170] }

Sp == << <<"Na","X","Mg">>, <<"Na","X","Mg">>, <<"Na","X","Mg">>, <<"Na","X","">>, <<"Na","X","Mg">> >>
Ev == << [f |-> 1, t |-> 2, env |-> <<3, 4>>], [f |-> 2, t |-> 3, env |-> <<>>] >>
Sys(rs) == [n |-> 5, mob |-> <<0,0,0,0,0>>, vac |-> <<1,1,1,1,1>>, ev |-> Ev,
            bm |-> [rules |-> rs, hasdef |-> TRUE, def |-> 999, sp |-> Sp]]

Init == /\ rules = <<>> /\ occ \in { o \in [1..5 -> 0..2] : o[1] < 2 /\ o[2] < 2 /\ o[5] < 2 } /\ e \in 1..2
Next == /\ Len(rules) < MaxRules
        /\ \E r \in Catalogue : rules' = Append(rules, r)
        /\ UNCHANGED <<occ, e>>
Spec == Init /\ [][Next]_vars

S == Sys(rules)
M(i) == Match(S, S.bm, occ, Ev[e], rules[i])
B == BarrierOf(S, occ, e)
FirstWins ==
  \A i \in 1..Len(rules) :
    (M(i) # "F" /\ \A j \in 1..(i-1) : M(j) = "F") => B = (IF M(i) = "T" THEN rules[i].bar ELSE NoBarrier)
Fallback == (\A i \in 1..Len(rules) : M(i) = "F") => B = 999
Stable == [][ (\E i \in 1..Len(rules) : M(i) # "F") => B' = B ]_vars
Local ==
  ~NonLocal(S) =>
    \A s \in 1..5 : \A v \in 0..2 :
      ~(\E k \in 1..Len(Canonical(Ev[e])) : Canonical(Ev[e])[k] = s)
        => BarrierOf(S, [occ EXCEPT ![s] = v], e) = B
\* a rate is only given to a hop that can happen
RateZero == (Rate(S, occ, e) = Zero) = (Dir(S, occ, e) = 0)
=============================================================================
