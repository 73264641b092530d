----------------------------- MODULE MCIndexMap -----------------------------
(* Every template of up to MaxPrim sites with any fixed/active pattern and  *)
(* every small supercell: the three index spaces are consistent, and        *)
(* values written site by site survive the passage between them.            *)
EXTENDS IndexMap, TLC
CONSTANTS MaxPrim, MaxShape
VARIABLES c, v
vars == <<c, v>>

Site(n) == [ sp |-> "A", allowed |-> [ k \in 1..n |-> "S" ], pos |-> <<0, 0, 0>> ]
Id == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Init == /\ \E n \in 1..MaxPrim : \E f \in [1..n -> 1..3] :
              c \in { [ prim |-> [ p \in 1..n |-> Site(f[p]) ], m |-> Id, shape |-> <<x, y, z>> ] :
                      x \in 1..MaxShape, y \in 1..MaxShape, z \in 1..2 }
        /\ NActive(c) > 0
        /\ v = [ k \in 1..NFull(c) |-> 0 ]
\* the simulation changes an active site; the full vector is the reference
Change == \E a \in 0..(NActive(c) - 1) :
            LET k == FullOf(c, a) IN
            /\ v[k + 1] < Len(c.prim[PrimOf(c, k) + 1].allowed) - 1
            /\ v' = [v EXCEPT ![k + 1] = @ + 1] /\ c' = c
Next == /\ \A k \in 1..Len(v) : v[k] = 0
        /\ Change
Spec == Init /\ [][Next]_vars

Increasing == \A a, b \in 1..NActive(c) : a < b => A2O(c)[a] < A2O(c)[b]
Inverse == /\ \A a \in 0..(NActive(c) - 1) : ActIdx(c, FullOf(c, a)) = a
           /\ \A k \in ActiveFull(c) : FullOf(c, ActIdx(c, k)) = k
Counts == NActive(c) = NCells(c) * Cardinality({ p \in 0..(NPrim(c) - 1) : PrimActive(c, p) })
Blocks == \A a \in 0..(NActive(c) - 1) : a \div NCells(c) = PActIdx(c, A2P(c)[a + 1])
Lossless == /\ \A k \in ActiveFull(c) : Select(c, v)[ActIdx(c, k) + 1] = v[k + 1]
            /\ \A k \in (0..(NFull(c) - 1)) \ ActiveFull(c) : v[k + 1] = 0
=============================================================================
