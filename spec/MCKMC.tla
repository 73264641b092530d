------------------------------- MODULE MCKMC -------------------------------
(* Small systems for exhaustive checking of module KMC. *)
EXTENDS KMC

R0 == [type |-> "constant", hasM |-> FALSE, M |-> <<>>, hasE |-> FALSE, E |-> <<>>,
       sel |-> "local_env", sites |-> <<>>, pat |-> <<>>, st |-> 0, spp |-> <<>>,
       lo |-> 0, hi |-> 99, bar |-> 300]
BM(rules) == [rules |-> rules, hasdef |-> TRUE, def |-> 200, sp |-> <<>>]

\* ring of four sites, environment = the two other sites, crowding rule
Ring ==
  [n |-> 4, mob |-> <<0,0,0,0>>, vac |-> <<1,1,1,1>>,
   ev |-> << [f |-> 1, t |-> 2, env |-> <<4,3>>], [f |-> 2, t |-> 3, env |-> <<1,4>>],
             [f |-> 3, t |-> 4, env |-> <<2,1>>], [f |-> 4, t |-> 1, env |-> <<3,2>>] >>,
   bm |-> BM(<< [R0 EXCEPT !.type = "state_count", !.lo = 2, !.bar = 450],
                [R0 EXCEPT !.type = "pattern", !.sel = "canonical", !.pat = <<0,1,-1,0>>, !.bar = 150] >>),
   L |-> << <<4,0,0>>, <<0,3,0>>, <<0,0,3>> >>,
   pos |-> << <<0,0,0>>, <<1,0,0>>, <<2,0,0>>, <<3,0,0>> >>, np |-> 4, sh |-> 1]

\* chain whose sublattices use different state codes, with a substituent site
Mixed ==
  [n |-> 5, mob |-> <<0,1,0,2,-1>>, vac |-> <<1,0,2,0,-1>>,
   ev |-> << [f |-> 1, t |-> 2, env |-> <<5>>], [f |-> 2, t |-> 3, env |-> <<>>],
             [f |-> 3, t |-> 4, env |-> <<5,1>>], [f |-> 4, t |-> 1, env |-> <<2>>] >>,
   bm |-> BM(<< [R0 EXCEPT !.type = "state_count", !.sel = "local_env", !.st = 1, !.lo = 1, !.bar = 333],
                [R0 EXCEPT !.type = "exact", !.hasM = TRUE, !.M = <<2,3>>, !.hasE = TRUE, !.E = <<>>,
                           !.pat = <<1,2>>, !.bar = 111] >>),
   L |-> << <<5,0,0>>, <<2,4,0>>, <<0,0,4>> >>,
   pos |-> << <<0,0,0>>, <<2,1,0>>, <<4,2,0>>, <<1,3,0>>, <<0,0,2>> >>, np |-> 4, sh |-> 1]

\* a rule that looks at the whole configuration
Global ==
  [Ring EXCEPT !.bm = BM(<< [R0 EXCEPT !.type = "pattern", !.sel = "explicit", !.sites = <<1>>,
                                       !.pat = <<0>>, !.bar = 500] >>),
               !.ev = << [f |-> 1, t |-> 2, env |-> <<>>], [f |-> 2, t |-> 3, env |-> <<>>],
                         [f |-> 3, t |-> 4, env |-> <<>>], [f |-> 4, t |-> 1, env |-> <<>>] >>]

MCSystems == {Ring, Mixed, Global}

Allowed(s, i) == IF s.mob[i] = -1 THEN {0, 1} ELSE {s.mob[i], s.vac[i]}
MCStarts(s) == { o \in [1..s.n -> 0..2] : \A i \in 1..s.n : o[i] \in Allowed(s, i) }
=============================================================================
