------------------------------ MODULE EventGen ------------------------------
(* Hop events of a periodic lattice.  Positions are integers in units of    *)
(* 1/D of the primitive fractional coordinates, distances come from the     *)
(* integer Gram matrix of the primitive cell, so that everything is exact.  *)
(*   c = [D, gram, shape, sites |-> <<[pos, prim, cell, sp, ini, tgt]...>>, *)
(*        q |-> q[species a][species b]]   (largest allowed squared length) *)
EXTENDS Integers, Sequences, FiniteSets

N(c) == 0..(Len(c.sites) - 1)
S(c, a) == c.sites[a + 1]
Images(c) == (-2..2) \X (-2..2) \X (-2..2)
Quad(g, d) ==
  (g[1][1] * d[1] * d[1]) + (g[2][2] * d[2] * d[2]) + (g[3][3] * d[3] * d[3]) +
  (2 * ((g[1][2] * d[1] * d[2]) + (g[1][3] * d[1] * d[3]) + (g[2][3] * d[2] * d[3])))
Vec(c, a, b, n) ==
  [ k \in 1..3 |-> (S(c, b).pos[k] - S(c, a).pos[k]) + (n[k] * c.shape[k] * c.D) ]
Near(c, a, b) ==
  { n \in Images(c) : LET d == Quad(c.gram, Vec(c, a, b, n)) IN d > 0 /\ d <= c.q[S(c, a).sp][S(c, b).sp] }
Hop(c, a, b) == (S(c, a).ini /\ S(c, b).tgt) \/ (S(c, b).ini /\ S(c, a).tgt)
=============================================================================
