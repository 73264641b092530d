--------------------------- MODULE MCSiteLattice ---------------------------
(* On every small template and supercell: occupations and structures        *)
(* describe each other, and supercells of supercells are supercells.        *)
EXTENDS SiteLattice, SequencesExt
CONSTANTS G, Pos, Lists, Mats, MaxSites, Skip
VARIABLES T, M, N, occ
vars == <<T, M, N, occ>>
Spec3 == {"Na", "Si"}
Templates == { [site |-> s, map |-> m] :
  s \in UNION { { [i \in 1..k |-> [x |-> xs[i], sp |-> f[i]]] : xs \in { q \in [1..k -> Pos] : \A i, j \in 1..k : i # j => q[i] # q[j] },
                                                                 f \in [1..k -> Spec3] } : k \in 1..2 },
  m \in [Spec3 -> Lists] }
P == {<<0, 0, 0>>, <<2, 1, 3>>}
PBig == {<<0, 0, 0>>, <<2, 1, 0>>, <<1, 2, 3>>}
L == {<<"Na", "X">>, <<"X", "Na", "Mg">>, <<"Si">>}
Ms == { Id, <<<<2, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 1, 0>>, <<-1, 1, 0>>, <<0, 0, 1>>>>,
        <<<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>>> }
MsBig == Ms \cup { <<<<1, 0, 0>>, <<0, 1, 1>>, <<1, -1, 2>>>>, <<<<0, 2, 0>>, <<1, 0, 0>>, <<0, 0, -1>>>>, <<<<1, 1, 1>>, <<-1, 1, 0>>, <<0, -1, 1>>>> }
ASSUME \A A \in Mats : Det(A) > 0 /\ MatMul(A, Adj(A)) = [i \in I3 |-> Times(Det(A), Id[i])]

SiteList(t, m) == SetToSeq({ s.x : s \in SuperSites(t, G, m) })
Alws(t, xs) == [i \in 1..Len(xs) |-> Allowed(t, TemplateOf(t, G, xs[i]))]
None == <<>>
\* a template and a supercell; then a second supercell or an occupation
Used(t) == \A e \in Spec3 : (\E i \in 1..Len(t.site) : t.site[i].sp = e) \/ t.map[e] = <<"Na", "X">>
Init == /\ T \in { t \in Templates : Used(t) } /\ M \in Mats /\ N = None /\ occ = None
        /\ Len(T.site) * Det(M) <= MaxSites
Next == /\ N = None /\ occ = None /\ UNCHANGED <<T, M>>
        /\ \/ N' \in Mats /\ occ' = None
           \/ /\ N' = None
              /\ LET xs == TLCEval(SiteList(T, M))  al == TLCEval(Alws(T, xs)) IN
                 occ' \in { o \in [1..Len(xs) -> 0..2] : \A i \in 1..Len(xs) : o[i] < Len(al[i]) }
Spec == Init /\ [][Next]_vars

Counted == (N = None /\ occ = None) => /\ Cardinality(SuperSites(T, G, M)) = Len(T.site) * Det(M)
           /\ Names(T, G, M, FALSE, SiteList(T, M))
Composed == N = None \/
  LET two == { Plus(s.x, Times(G, RowTimes(t, M))) : s \in SuperSites(T, G, M), t \in Cells(N) }
      MN == MatMul(N, M)  A == Adj(MN)  n == Unit(G, MN)
  IN  /\ Det(MN) = Det(M) * Det(N)
      /\ Names(T, G, MN, FALSE, TLCEval(SetToSeq(two)))
\* reading the structure an occupation stands for gives the occupation back, atoms in any image
Back == occ = None \/
  LET xs == TLCEval(SiteList(T, M))  al == TLCEval(Alws(T, xs))  A == TLCEval(Adj(M))  n == Unit(G, M)
      atoms == TLCEval(SetToSeq(AtomsOf(xs, al, "chebyshev", occ)))
      moved == TLCEval([k \in 1..Len(atoms) |-> [atoms[k] EXCEPT !.x = Plus(@, Times(G, IF Skip THEN <<1, 0, 0>> ELSE RowTimes(<<1, -1, 0>>, M)))]])
      at == TLCEval([k \in 1..Len(moved) |-> Nearest(G, A, n, xs, moved[k].x)])
  IN  Fits(al, moved, at) /\ Agrees(occ, OccGiven(al, "chebyshev", moved, at))
=============================================================================
