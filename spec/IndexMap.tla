------------------------------ MODULE IndexMap ------------------------------
(* The index spaces of kMCpy.  A template (primitive cell) and a site       *)
(* mapping define three spaces: template sites, full supercell sites (every *)
(* template site in every cell, template site by template site) and compact *)
(* active sites (the full sites with more than one allowed species, in full *)
(* order).  All indices are zero based, as in the code.                     *)
(*   c = [prim |-> <<[sp, allowed, pos], ...>>, m |-> cell rows, shape]     *)
EXTENDS Integers, Sequences, FiniteSets

NPrim(c) == Len(c.prim)
NCells(c) == c.shape[1] * c.shape[2] * c.shape[3]
NFull(c) == NPrim(c) * NCells(c)
Cells(c) == { <<a, b, d>> : a \in 0..(c.shape[1] - 1), b \in 0..(c.shape[2] - 1), d \in 0..(c.shape[3] - 1) }

PrimActive(c, p) == Len(c.prim[p + 1].allowed) > 1
PrimOf(c, k) == k \div NCells(c)
IsActive(c, k) == PrimActive(c, PrimOf(c, k))
ActiveFull(c) == { k \in 0..(NFull(c) - 1) : IsActive(c, k) }
NActive(c) == Cardinality(ActiveFull(c))
\* compact index of a full site, -1 for fixed sites
ActIdx(c, k) == IF IsActive(c, k) THEN Cardinality({ j \in ActiveFull(c) : j < k }) ELSE -1
A2O(c) == SelectSeq([ k \in 1..NFull(c) |-> k - 1 ], LAMBDA k : IsActive(c, k))
FullOf(c, a) == A2O(c)[a + 1]
PActIdx(c, p) == IF PrimActive(c, p) THEN Cardinality({ q \in 0..(p - 1) : PrimActive(c, q) }) ELSE -1

A2P(c) == LET s == A2O(c) IN [ a \in 1..Len(s) |-> PrimOf(c, s[a]) ]
Select(c, v) == LET s == A2O(c) IN [ a \in 1..Len(s) |-> v[s[a] + 1] ]

\* the index space itself: two orders are interchangeable iff these agree
Space(c) == [ sp |-> [ p \in 1..NPrim(c) |-> c.prim[p].sp ], al |-> [ p \in 1..NPrim(c) |-> c.prim[p].allowed ],
              shape |-> c.shape ]

-----------------------------------------------------------------------------
(* Geometry on an integer grid: a difference is a supercell lattice vector. *)
Dot(u, v) == (u[1] * v[1]) + (u[2] * v[2]) + (u[3] * v[3])
Cross(u, v) == << (u[2] * v[3]) - (u[3] * v[2]), (u[3] * v[1]) - (u[1] * v[3]), (u[1] * v[2]) - (u[2] * v[1]) >>
Sub(u, v) == << u[1] - v[1], u[2] - v[2], u[3] - v[3] >>
Comb(n, m) == [ k \in 1..3 |-> (n[1] * m[1][k]) + (n[2] * m[2][k]) + (n[3] * m[3][k]) ]
Super(c) == [ r \in 1..3 |-> [ k \in 1..3 |-> c.shape[r] * c.m[r][k] ] ]
Abs(x) == IF x < 0 THEN -x ELSE x
IsLatticeVector(L, d) ==
  LET det == Abs(Dot(L[1], Cross(L[2], L[3])))
      num == << Dot(d, Cross(L[2], L[3])), Dot(d, Cross(L[3], L[1])), Dot(d, Cross(L[1], L[2])) >>
  IN  \A k \in 1..3 : Abs(num[k]) % det = 0
PosOk(c, prim, cell, pos) ==
  IsLatticeVector(Super(c), Sub(pos, [ k \in 1..3 |-> c.prim[prim + 1].pos[k] + Comb(cell, c.m)[k] ]))
=============================================================================
