------------------------------- MODULE MCStart ------------------------------
(* All combinations of small site orders for configuration, events, state:  *)
(* a start that is accepted reads every index as the site it was written    *)
(* for.  With Weak the acceptance only compares the number of sites.        *)
EXTENDS Start, TLC
CONSTANTS NP, ShapeSet, Weak
VARIABLE w
Small == {<<1, 1, 1>>, <<2, 1, 1>>}
Large == {<<1, 1, 1>>, <<2, 1, 1>>, <<1, 2, 1>>}
Kinds == { [sp |-> "Na", allowed |-> <<"Na", "X">>], [sp |-> "Na", allowed |-> <<"X", "Na">>], [sp |-> "O", allowed |-> <<"O">>] }
Site(k, p) == [sp |-> k.sp, allowed |-> k.allowed, pos |-> <<p, 0, 0>>]
Spaces == { [prim |-> [p \in 1..n |-> Site(f[p], p)], m |-> <<<<5, 0, 0>>, <<0, 5, 0>>, <<0, 0, 5>>>>, shape |-> s] :
             n \in 1..NP, f \in [1..NP -> Kinds], s \in ShapeSet }
Consistent(c) == \A p, q \in 1..NPrim(c) : c.prim[p].sp = c.prim[q].sp => c.prim[p].allowed = c.prim[q].allowed
Good == { c \in Spaces : Consistent(c) /\ NActive(c) > 0 }
\* a state written for order c, for the active or for all sites: each value names its site
Val(c, full) == IF full THEN [k \in 1..NFull(c) |-> k - 1] ELSE A2O(c)
Init == \E a \in Good, b \in Good, s \in Good, full \in BOOLEAN, n \in 0..1 :
  w = [c |-> a, hasmap |-> TRUE, ev |-> [tagged |-> TRUE, c |-> b, idx |-> [k \in 1..NActive(b) |-> k - 1]],
       st |-> [how |-> IF n = 0 THEN "occ" ELSE "file", kind |-> "init", occ |-> Val(s, full), time |-> "", step |-> 0,
               focc |-> Val(s, full)], stc |-> s]
Next == UNCHANGED w
Spec == Init /\ [][Next]_w
Accepted == IF Weak THEN NActive(w.ev.c) = NActive(w.c) /\ StateOk(w) ELSE Starts(w)
\* every event index means the same template site, cell and allowed list in both orders
EventsMean == Accepted => /\ A2O(w.ev.c) = A2O(w.c) /\ A2P(w.ev.c) = A2P(w.c)
                          /\ \A a \in 1..NActive(w.c) : w.ev.c.prim[A2P(w.ev.c)[a] + 1].allowed = w.c.prim[A2P(w.c)[a] + 1].allowed
\* and a state of the same order lands on the sites it was written for
StateMeans == (Accepted /\ Space(w.stc) = Space(w.c)) => Occ0(w) = A2O(w.c)
=============================================================================
