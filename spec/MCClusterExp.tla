---------------------------- MODULE MCClusterExp ----------------------------
(* Every small environment: orbits partition the clusters, and the features *)
(* of two-state sites do not change under any congruence of the environment *)
(* with itself or with another environment listed in another order.         *)
EXTENDS ClusterExp, SequencesExt
CONSTANTS Pts, Labels, MaxN, Lim, Q
VARIABLES env, q, w
vars == <<env, q, w>>
Grid == {<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<2, 2, 0>>, <<-2, 0, 0>>}
GridBig == Grid \cup {<<0, 0, 2>>, <<4, 0, 0>>}
\* environments as ordered lists; the second step is another ordering of the same one, its
\* sites moved by a symmetry of the plane
Mirror(v) == <<v[2], v[1], -v[3]>>
Code(v) == (v[1] * 100) + (v[2] * 10) + v[3]
Init == /\ env = <<>> /\ q \in Q /\ w = <<>>
Next == \/ /\ w = <<>> /\ Len(env) < MaxN /\ UNCHANGED <<q, w>>
           /\ \E p \in Pts, s \in Labels : (\A i \in 1..Len(env) : Code(env[i].x) < Code(p)) /\ env' = Append(env, [p |-> 1, x |-> p, sp |-> s])
        \/ /\ w = <<>> /\ Len(env) > 1 /\ UNCHANGED <<env, q>>
           /\ w' \in { f \in [1..Len(env) -> 1..Len(env)] : \A i, j \in 1..Len(env) : i # j => f[i] # f[j] }
Spec == Init /\ [][Next]_vars
Qs(e) == [i \in 1..Len(e) |-> IF e[i].sp = "A" THEN q ELSE 2]
Occs(e) == { o \in [1..Len(e) -> 0..(q - 1)] : \A i \in 1..Len(e) : o[i] < Qs(e)[i] }
Partition == (w = <<>> /\ env # <<>>) =>
  LET os == TLCEval(Orbits(env, Lim))  d == DistTable(env)  cs == Clusters(d, Len(env), Lim)
      all == UNION { { <<o, c>> : c \in 1..Len(os[o]) } : o \in 1..Len(os) }
  IN  /\ Cardinality(all) = Len(cs)
      /\ { os[x[1]][x[2]] : x \in all } = { cs[i] : i \in 1..Len(cs) }
      /\ Cardinality({ cs[i] : i \in 1..Len(cs) }) = Len(cs)
      /\ \A x, y \in all : (x[1] = y[1]) = Congruent(env, d, os[x[1]][x[2]], env, d, os[y[1]][y[2]])
\* the same environment, listed in the order w and mirrored
Other == [i \in 1..Len(env) |-> [env[w[i]] EXCEPT !.x = Mirror(@)]]
Same == w = <<>> \/
  LET e2 == TLCEval(Other)
      inv == [j \in 1..Len(env) |-> CHOOSE i \in 1..Len(env) : w[i] = j]
  IN  Plays(env, e2, inv) /\ Equivalent(env, e2)
Count(fs, o, v) == Cardinality({ i \in 1..Len(fs) : Feature("chebyshev", Qs(env), o, fs[i]) = v })
\* a congruence of the environment with itself leaves every feature unchanged
Invariant == w = <<>> \/ ~Plays(env, env, w) \/
  LET fs == TLCEval(FlatFeatures("chebyshev", Qs(env), TLCEval(Orbits(env, Lim)))) IN
  \A o \in Occs(env) :
    Correlation("chebyshev", Qs(env), o, fs) = Correlation("chebyshev", Qs(env), [i \in 1..Len(env) |-> o[w[i]]], fs)
\* orderings share the features up to their order
Reordered == w = <<>> \/ q # 2 \/
  LET e2 == TLCEval(Other)  
      f1 == TLCEval(FlatFeatures("chebyshev", Qs(env), TLCEval(Orbits(env, Lim))))
      f2 == TLCEval(FlatFeatures("chebyshev", Qs(e2), TLCEval(Orbits(e2, Lim))))
  IN  /\ Len(f1) = Len(f2)
      /\ \A o \in Occs(env) :
           LET c1 == TLCEval(Correlation("chebyshev", Qs(env), o, f1))
               c2 == TLCEval(Correlation("chebyshev", Qs(e2), [i \in 1..Len(env) |-> o[w[i]]], f2))
           IN  \A v \in { c1[i] : i \in 1..Len(c1) } :
                 Cardinality({ i \in 1..Len(c1) : c1[i] = v }) = Cardinality({ i \in 1..Len(c2) : c2[i] = v })
Lims == <<100, 8, 4, 8>>
LimsBig == <<100, 16, 8, 8>>
=============================================================================
