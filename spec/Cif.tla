-------------------------------- MODULE Cif --------------------------------
(* Crystals from files.  Fractional coordinates are whole numbers of 1/N;   *)
(* a file lists symmetry operations (a group modulo N) and atoms.           *)
(*   F = [N, ops : <<[r, t]>>, atoms : <<[label, el, x, occ]>>, K]          *)
(* K: integer cell rows, so that a point is x[1]K[1]+x[2]K[2]+x[3]K[3].     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Act(F, o, x) == [k \in 1..3 |-> ((o.r[k][1] * x[1]) + (o.r[k][2] * x[2]) + (o.r[k][3] * x[3]) + o.t[k]) % F.N]
Orbit(F, x) == { Act(F, F.ops[j], x) : j \in 1..Len(F.ops) }
Wrap(F, x) == [k \in 1..3 |-> x[k] % F.N]
Merge(a, b) == [e \in DOMAIN a \cup DOMAIN b |-> (IF e \in DOMAIN a THEN a[e] ELSE 0) + (IF e \in DOMAIN b THEN b[e] ELSE 0)]

\* atoms on equivalent positions share one site; each group is one orbit
RECURSIVE Groups(_, _)
Groups(F, n) ==
  IF n = 0 THEN <<>>
  ELSE LET g == Groups(F, n - 1)
           a == F.atoms[n]
           hit == { j \in 1..Len(g) : Wrap(F, g[j].x) \in Orbit(F, a.x) }
       IN  IF a.occ = 0 THEN g
           ELSE IF hit = {} THEN Append(g, [x |-> a.x, label |-> a.label, comp |-> (a.el :> a.occ)])
           ELSE LET j == CHOOSE h \in hit : \A o \in hit : h <= o
                IN  [g EXCEPT ![j].label = @ \o a.label, ![j].comp = Merge(@, (a.el :> a.occ))]
OrbitsOf(F) == Groups(F, Len(F.atoms))
SitesOf(F) == UNION { { [x |-> x, label |-> g.label, comp |-> g.comp] : x \in Orbit(F, g.x) } :
                      g \in { OrbitsOf(F)[j] : j \in 1..Len(OrbitsOf(F)) } }
\* numbering: atoms as listed, and for each the operations as listed
Found(F, x) == LET im == [j \in 1..Len(F.ops) |-> Act(F, F.ops[j], x)]
               IN  SelectSeq([j \in 1..Len(F.ops) |-> IF \E h \in 1..(j - 1) : im[h] = im[j] THEN <<>> ELSE im[j]], LAMBDA y : y # <<>>)
RECURSIVE ListFrom(_, _)
ListFrom(F, gs) == IF gs = <<>> THEN <<>>
                   ELSE LET L == Found(F, Head(gs).x)
                        IN  [k \in 1..Len(L) |-> [x |-> L[k], seq |-> k - 1]] \o ListFrom(F, Tail(gs))
Listed(F) == ListFrom(F, OrbitsOf(F))

\* supercells: row combinations of M; two translations are the same when they differ by one
Det3(M) == (M[1][1] * ((M[2][2] * M[3][3]) - (M[2][3] * M[3][2])))
         - (M[1][2] * ((M[2][1] * M[3][3]) - (M[2][3] * M[3][1])))
         + (M[1][3] * ((M[2][1] * M[3][2]) - (M[2][2] * M[3][1])))
Adj(M) == << <<(M[2][2] * M[3][3]) - (M[2][3] * M[3][2]), (M[1][3] * M[3][2]) - (M[1][2] * M[3][3]), (M[1][2] * M[2][3]) - (M[1][3] * M[2][2])>>,
             <<(M[2][3] * M[3][1]) - (M[2][1] * M[3][3]), (M[1][1] * M[3][3]) - (M[1][3] * M[3][1]), (M[1][3] * M[2][1]) - (M[1][1] * M[2][3])>>,
             <<(M[2][1] * M[3][2]) - (M[2][2] * M[3][1]), (M[1][2] * M[3][1]) - (M[1][1] * M[3][2]), (M[1][1] * M[2][2]) - (M[1][2] * M[2][1])>> >>
\* v (in units of 1/q cells) is a whole combination of the rows of M
Whole(M, v, q) ==
  LET A == Adj(M)  d == Det3(M) IN
  \A k \in 1..3 : (((v[1] * A[1][k]) + (v[2] * A[2][k]) + (v[3] * A[3][k])) % ((IF d < 0 THEN -d ELSE d) * q)) = 0
Minus(u, v) == [k \in 1..3 |-> u[k] - v[k]]
Size(M) == IF Det3(M) < 0 THEN -Det3(M) ELSE Det3(M)

\* neighbours: periodic copies by distance
Point(F, v) == [k \in 1..3 |-> (v[1] * F.K[1][k]) + (v[2] * F.K[2][k]) + (v[3] * F.K[3][k])]
Len2(p) == (p[1] * p[1]) + (p[2] * p[2]) + (p[3] * p[3])
Images(R) == [1..3 -> -R..R]
=============================================================================
