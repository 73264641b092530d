---------------------------- MODULE SiteLattice ----------------------------
(* Crystals as site lattices: a template cell with sites, the species each  *)
(* site may hold, its supercells, and what an occupation vector and an      *)
(* atomic structure say about each other.                                   *)
(* Positions are integer vectors in units of 1/G of the template's lattice  *)
(* vectors; a supercell is an integer matrix M whose rows are the new       *)
(* lattice vectors.  T.site << [x, sp] >>, T.map  sp -> << species >>.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

I3 == {1, 2, 3}
Cyc(i) == IF i > 3 THEN i - 3 ELSE i
\* adjugate and determinant: M . Adj(M) = Det(M) . 1
Adj(M) == [i \in I3 |-> [j \in I3 |->
  (M[Cyc(j + 1)][Cyc(i + 1)] * M[Cyc(j + 2)][Cyc(i + 2)]) - (M[Cyc(j + 1)][Cyc(i + 2)] * M[Cyc(j + 2)][Cyc(i + 1)])]]
Det(M) == LET A == Adj(M) IN (M[1][1] * A[1][1]) + (M[1][2] * A[2][1]) + (M[1][3] * A[3][1])
RowTimes(v, A) == [j \in I3 |-> (v[1] * A[1][j]) + (v[2] * A[2][j]) + (v[3] * A[3][j])]
MatMul(A, B) == [i \in I3 |-> RowTimes(A[i], B)]
Minus(v, w) == [j \in I3 |-> v[j] - w[j]]
Plus(v, w) == [j \in I3 |-> v[j] + w[j]]
Times(k, v) == [j \in I3 |-> k * v[j]]
Id == [i \in I3 |-> [j \in I3 |-> IF i = j THEN 1 ELSE 0]]

\* the fractional difference of two positions in the supercell, nearest image, in units of 1/Unit
Unit(G, M) == G * Det(M)
Centre(u, n) == LET w == u % n IN IF (2 * w) > n THEN w - n ELSE w
Frac(G, A, n, d) == LET r == RowTimes(d, A) IN [j \in I3 |-> Centre(r[j], n)]
Norm2(v) == (v[1] * v[1]) + (v[2] * v[2]) + (v[3] * v[3])
Dist2(G, A, n, x, y) == Norm2(Frac(G, A, n, Minus(x, y)))

\* all sites of the supercell M, each once
Cells(M) ==
  LET A == TLCEval(Adj(M))  n == Det(M)
      lo == [j \in I3 |-> (IF M[1][j] < 0 THEN M[1][j] ELSE 0) + (IF M[2][j] < 0 THEN M[2][j] ELSE 0) + (IF M[3][j] < 0 THEN M[3][j] ELSE 0)]
      hi == [j \in I3 |-> (IF M[1][j] > 0 THEN M[1][j] ELSE 0) + (IF M[2][j] > 0 THEN M[2][j] ELSE 0) + (IF M[3][j] > 0 THEN M[3][j] ELSE 0)]
  IN  { t \in { <<a, b, c>> : a \in lo[1]..hi[1], b \in lo[2]..hi[2], c \in lo[3]..hi[3] } :
        LET f == RowTimes(t, A) IN \A j \in I3 : f[j] >= 0 /\ f[j] < n }
SuperSites(T, G, M) == { [p |-> p, x |-> Plus(T.site[p].x, Times(G, t))] : p \in 1..Len(T.site), t \in Cells(M) }
Allowed(T, p) == T.map[T.site[p].sp]
\* the template site a position belongs to, 0 when none
TemplateOf(T, G, x) ==
  LET S == { p \in 1..Len(T.site) : \A j \in I3 : ((x[j] - T.site[p].x[j]) % G) = 0 } IN
  IF S = {} THEN 0 ELSE CHOOSE p \in S : TRUE
Active(T, p) == Len(Allowed(T, p)) > 1
\* a list of positions names every (active) site of the supercell exactly once
Names(T, G, M, act, xs) ==
  LET A == TLCEval(Adj(M))  n == Unit(G, M)
      P == { p \in 1..Len(T.site) : ~act \/ Active(T, p) }
  IN  /\ Len(xs) = Cardinality(P) * Det(M)
      /\ \A i \in 1..Len(xs) : TemplateOf(T, G, xs[i]) \in P
      /\ \A i, j \in 1..Len(xs) : i < j => Frac(G, A, n, Minus(xs[i], xs[j])) # <<0, 0, 0>>

\* codes: position in the allowed list, or present/absent of the first one
IndexOf(s, e) == LET S == { i \in 1..Len(s) : s[i] = e } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Code(basis, k) == IF basis = "occupation" THEN (IF k = 1 THEN 1 ELSE 0) ELSE k - 1
SpeciesOf(basis, alw, c) ==
  LET S == { k \in 1..Len(alw) : Code(basis, k) = c } IN
  IF S = {} THEN "" ELSE alw[CHOOSE k \in S : \A j \in S : k <= j]
Vacant == "X"
Anything == -7
\* a site without an atom: its vacancy, where it has one
Missing(basis, alw) == LET k == IndexOf(alw, Vacant) IN IF k = 0 THEN Anything ELSE Code(basis, k)

\* which sites (indices of xs) an atom may be meant to be on: the nearest, in fractional
\* coordinates of the supercell
Nearest(G, A, n, xs, x) ==
  LET d == TLCEval([i \in 1..Len(xs) |-> Dist2(G, A, n, xs[i], x)]) IN
  CHOOSE i \in 1..Len(xs) : \A j \in 1..Len(xs) : d[i] <= d[j]
\* 100 |u|, squared, to be compared with a tolerance in per cent
Off(G, A, n, y, x) == Norm2(Times(100, Frac(G, A, n, Minus(y, x))))

\* occupation of the sites xs by atoms << [x, sp] >>; at[k] is the site of atom k
OccGiven(alws, basis, atoms, at) ==
  [i \in 1..Len(alws) |->
    LET K == { k \in 1..Len(atoms) : at[k] = i } IN
    IF K = {} THEN Missing(basis, alws[i]) ELSE Code(basis, IndexOf(alws[i], atoms[CHOOSE k \in K : TRUE].sp))]
Fits(alws, atoms, at) ==
  /\ \A k \in 1..Len(atoms) : at[k] \in 1..Len(alws)
  /\ \A k, l \in 1..Len(atoms) : k < l => at[k] # at[l]
  /\ \A k \in 1..Len(atoms) : IndexOf(alws[at[k]], atoms[k].sp) # 0
Agrees(codes, want) == /\ Len(codes) = Len(want)
                       /\ \A i \in 1..Len(want) : want[i] = Anything \/ codes[i] = want[i]
\* the atoms an occupation stands for
AtomsOf(xs, alws, basis, codes) ==
  { [x |-> xs[i], sp |-> SpeciesOf(basis, alws[i], codes[i])] : i \in { j \in 1..Len(xs) : SpeciesOf(basis, alws[j], codes[j]) # Vacant } }
=============================================================================
