------------------------------- MODULE MCLCE --------------------------------
(* A complete small composite system: every occupation, every event order.  *)
EXTENDS LCE, TLC
CONSTANTS SiteKind, EnvHasEndpoint
VARIABLES occ, e0, path
vars == <<occ, e0, path>>

lceK == [dec |-> TRUE, feat |-> << << <<1>>, <<2>> >>, << <<1, 2>> >> >>, bas |-> << << <<1>>, <<1>> >>, << <<1, 1>> >> >>,
         tab |-> << << <<-1>>, <<1>> >>, << <<-1>>, <<1>> >> >>, keci |-> <<7, -3>>, empty |-> 300]
lceS == [dec |-> FALSE, feat |-> << << <<1>> >>, << <<2>> >> >>, bas |-> <<>>, tab |-> <<>>, keci |-> <<11, -5>>, empty |-> 4]
extM == [map |-> <<2, 1, 4, 5, 3>>, base |-> <<0, 0, 0, 0, 0, 7>>,
         val |-> << <<1, 0>>, <<0, 1>>, <<3, -2>>, <<1, 5>>, <<2, 1>> >>,
         h |-> <<3, -4, 5, 1, 2, 9>>, J |-> << <<1, 2, 6>>, <<2, 4, -3>>, <<5, 6, 1>> >>]
\* sites 2 uses the reversed code order; 5 is a non-mobile site
sys == [n |-> 5, mob |-> <<0, 1, 0, 0, -1>>, vac |-> <<1, 0, 1, 1, -1>>,
        ev |-> << [f |-> 1, t |-> 2, env |-> IF EnvHasEndpoint THEN <<1, 5>> ELSE <<3, 5>>],
                  [f |-> 2, t |-> 3, env |-> <<4, 5>>], [f |-> 4, t |-> 3, env |-> <<1, 2>>],
                  [f |-> 1, t |-> 4, env |-> <<5, 2>>] >>,
        kra |-> lceK, site |-> [kind |-> SiteKind, lce |-> lceS, ext |-> extM]]

Init == /\ occ \in { o \in [1..5 -> {0, 1}] : TRUE }
        /\ e0 = ExtEnergy(extM, Ext(extM, occ)) /\ path = 0
Next == \E e \in Avail(sys, occ) :
          /\ occ' = Apply(sys, occ, e)
          /\ path' = path + SiteDelta(sys, occ, e)
          /\ path' \in -200..200
          /\ e0' = e0
Spec == Init /\ [][Next]_vars

\* detailed balance: forward minus reverse barrier is the energy change
Balance ==
  \A e \in Avail(sys, occ) :
    Barrier2(sys, occ, e) - Barrier2(sys, Apply(sys, occ, e), e) = 2 * SiteDelta(sys, occ, e)
\* reversing an event is always possible and costs the opposite energy
Reversible ==
  \A e \in Avail(sys, occ) :
    /\ Dir(sys, Apply(sys, occ, e), e) = -Dir(sys, occ, e)
    /\ SiteDelta(sys, Apply(sys, occ, e), e) = -SiteDelta(sys, occ, e)
\* the energy collected along any path is a function of its end points
StateFunction == SiteKind = "ext" => path = ExtEnergy(extM, Ext(extM, occ)) - e0
\* what is unreachable for the event has no rate
Zero == \A e \in Events(sys) : (Rate2(sys, occ, e) = NoRate) = (e \notin Avail(sys, occ))
=============================================================================
