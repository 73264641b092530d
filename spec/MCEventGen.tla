----------------------------- MODULE MCEventGen -----------------------------
(* The generation algorithm: neighbours of the primitive sites are found    *)
(* once, then repeated in every cell of the supercell with wrapped cell     *)
(* indices.  For every small lattice, supercell, choice of initial and      *)
(* target sites and cutoff, the list obtained is the list of hops the       *)
(* supercell geometry has: each hop once per geometry, none twice.          *)
EXTENDS EventGen, TLC
CONSTANTS NPrimMax, ShapeMax, Cutoffs, Once
VARIABLES c, k, ev
vars == <<c, k, ev>>

D == 4
\* primitive positions along one axis (and one off-axis coordinate), cell-major copies
PrimPos == { <<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<2, 2, 0>> }
Gram == << <<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 30>> >>
Site(p, pos, x, y, i, t) ==
  [ pos |-> << pos[1] + (x * D), pos[2] + (y * D), 0 >>, prim |-> p, cell |-> <<x, y, 0>>, sp |-> "A", ini |-> i, tgt |-> t ]
Order(n, sx, sy) == [ m \in 1..(n * sx * sy) |->
   [ p |-> (m - 1) \div (sx * sy), x |-> ((m - 1) % (sx * sy)) \div sy, y |-> (m - 1) % sy ] ]
Make(n, pos, ini, tgt, sx, sy, q) ==
  [ D |-> D, gram |-> Gram, shape |-> <<sx, sy, 1>>, q |-> [ A |-> [ A |-> q ] ],
    sites |-> [ m \in 1..(n * sx * sy) |-> LET o == Order(n, sx, sy)[m] IN
                Site(o.p, pos[o.p + 1], o.x, o.y, ini[o.p + 1], tgt[o.p + 1]) ] ]
Injective(f) == \A a, b \in DOMAIN f : a # b => f[a] # f[b]

Init == /\ \E n \in 1..NPrimMax, sx \in 1..ShapeMax, sy \in 1..2, q \in Cutoffs :
             \E pos \in [1..n -> PrimPos], ini, tgt \in [1..n -> BOOLEAN] :
               /\ Injective(pos)
               /\ c = Make(n, pos, ini, tgt, sx, sy, q)
        /\ k = 0 /\ ev = {}

\* neighbours of a primitive site: (primitive site, image)
NPrim == Cardinality({ c.sites[m].prim : m \in 1..Len(c.sites) })
Home(p) == CHOOSE s \in N(c) : S(c, s).prim = p /\ S(c, s).cell = <<0, 0, 0>>
PVec(p, r, im) == [ j \in 1..3 |-> (S(c, Home(r)).pos[j] - S(c, Home(p)).pos[j]) + (im[j] * D) ]
PImages == (-8..8) \X (-2..2) \X {0}
PNear(p) == { <<r, im>> \in (0..(NPrim - 1)) \X PImages :
                LET d == Quad(Gram, PVec(p, r, im)) IN d > 0 /\ d <= c.q["A"]["A"] }
Wrap(cell, im) == [ j \in 1..3 |-> (cell[j] + im[j]) % c.shape[j] ]
At(r, cell) == CHOOSE s \in N(c) : S(c, s).prim = r /\ S(c, s).cell = cell

\* one supercell site is processed: events are (from, to, image label) to keep multiplicity
Keep(a, b) ==
  /\ S(c, b).tgt
  /\ (Once /\ S(c, a).tgt /\ S(c, b).ini) => b > a
  /\ a # b
Step == /\ k < Len(c.sites)
        /\ ev' = IF S(c, k).ini
                 THEN ev \cup { h \in { <<k, At(e[1], Wrap(S(c, k).cell, e[2])), e[2]>> : e \in PNear(S(c, k).prim) } :
                                 Keep(h[1], h[2]) }
                 ELSE ev
        /\ k' = k + 1 /\ c' = c
Next == Step
Spec == Init /\ [][Next]_vars

Finished == k = Len(c.sites)
EachHopOnce ==
  Finished => \A a, b \in N(c) : a < b =>
    Cardinality({ e \in ev : {e[1], e[2]} = {a, b} }) = (IF Hop(c, a, b) THEN Cardinality(Near(c, a, b)) ELSE 0)
FromInitialToTarget == \A e \in ev : S(c, e[1]).ini /\ S(c, e[2]).tgt /\ e[1] # e[2]
=============================================================================
