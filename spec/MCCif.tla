------------------------------- MODULE MCCif --------------------------------
(* Small planar files: every group closure of a set of generators, every    *)
(* listing of up to Depth atoms.                                            *)
EXTENDS Cif
CONSTANTS N, Depth, Break
I == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Inv == << <<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>> >>
Mir == << <<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Rot == << <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>
Op(r, t) == [r |-> r, t |-> t]
Half == N \div 2
Gens == { {Op(I, <<0, 0, 0>>)}, {Op(Inv, <<0, 0, 0>>)}, {Op(Mir, <<0, Half, 0>>)}, {Op(Rot, <<0, 0, 0>>)},
          {Op(I, <<Half, Half, 0>>), Op(Mir, <<0, 0, 0>>)} }
Mul(a, b) == [r |-> [i \in 1..3 |-> [j \in 1..3 |-> (a.r[i][1] * b.r[1][j]) + (a.r[i][2] * b.r[2][j]) + (a.r[i][3] * b.r[3][j])]],
              t |-> [k \in 1..3 |-> ((a.r[k][1] * b.t[1]) + (a.r[k][2] * b.t[2]) + (a.r[k][3] * b.t[3]) + a.t[k]) % N]]
RECURSIVE Close(_)
Close(S) == LET T == S \cup { Mul(a, b) : a, b \in S } IN IF T = S THEN S ELSE Close(T)
RECURSIVE AsList(_)
AsList(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE x \in S : TRUE IN <<a>> \o AsList(S \ {a})
VARIABLES F
Atoms == { [label |-> l, el |-> e, x |-> <<p, q, 0>>, occ |-> c] :
           l \in {"A", "B"}, e \in {"Na", "P"}, p \in 0..(N - 1), q \in {0, 1, N + 1}, c \in {0, 1} }
Init == \E G \in Gens : F = [N |-> N, ops |-> AsList(Close({Op(I, <<0, 0, 0>>)} \cup G)), atoms |-> <<>>,
                             K |-> I]
Next == /\ Len(F.atoms) < Depth /\ \E a \in Atoms : F' = [F EXCEPT !.atoms = Append(@, a)]
Spec == Init /\ [][Next]_F
S == IF Break = "merge" THEN UNION { { [x |-> x, label |-> F.atoms[j].label, comp |-> (F.atoms[j].el :> F.atoms[j].occ)] :
                                        x \in Orbit(F, F.atoms[j].x) } : j \in { n \in 1..Len(F.atoms) : F.atoms[n].occ > 0 } } ELSE SitesOf(F)
\* no two sites on one position, every listed atom on a site, everything symmetric
OneEach == \A a, b \in S : a.x = b.x => a = b
Covered == \A j \in 1..Len(F.atoms) : F.atoms[j].occ > 0 => \E s \in S : s.x = Wrap(F, F.atoms[j].x) /\ F.atoms[j].el \in DOMAIN s.comp
Symmetric == \A s \in S : \A j \in 1..Len(F.ops) : [s EXCEPT !.x = Act(F, F.ops[j], s.x)] \in S
\* the content of the cell does not depend on which equivalent position was listed
Moved == \A j \in 1..Len(F.ops) :
           SitesOf([F EXCEPT !.atoms = [n \in 1..Len(@) |-> IF n = 1 THEN [@[n] EXCEPT !.x = Act(F, F.ops[j], @)] ELSE @[n]]]) = SitesOf(F)
Total(c) == LET RECURSIVE Sum(_)
                Sum(D) == IF D = {} THEN 0 ELSE LET d == CHOOSE x \in D : TRUE IN c[d] + Sum(D \ {d})
            IN Sum(DOMAIN c)
Kept == \A g \in { OrbitsOf(F)[j] : j \in 1..Len(OrbitsOf(F)) } :
          Total(g.comp) = Cardinality({ j \in 1..Len(F.atoms) : F.atoms[j].occ = 1 /\ Wrap(F, F.atoms[j].x) \in Orbit(F, g.x) })
\* the numbering reaches every site once
Counted == LET L == Listed(F) IN Len(L) = Cardinality(SitesOf(F)) /\ { L[j].x : j \in 1..Len(L) } = { s.x : s \in SitesOf(F) }
=============================================================================
