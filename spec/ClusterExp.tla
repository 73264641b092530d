----------------------------- MODULE ClusterExp -----------------------------
(* Local environments of a crystal and the features of a local cluster      *)
(* expansion built on them.  Positions are integer Cartesian vectors; a     *)
(* crystal is [lat |-> <<a, b, c>>, site |-> << [x, sp] >>, map, rank].     *)
(* An environment is a sequence of [p, x, sp]: the (active) site, its       *)
(* position relative to the centre, and its species label.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VMinus(v, w) == <<v[1] - w[1], v[2] - w[2], v[3] - w[3]>>
VPlus(v, w) == <<v[1] + w[1], v[2] + w[2], v[3] + w[3]>>
VTimes(k, v) == <<k * v[1], k * v[2], k * v[3]>>
Sq(v) == (v[1] * v[1]) + (v[2] * v[2]) + (v[3] * v[3])

\* --- environments -------------------------------------------------------
ActiveIds(T) == { p \in 1..Len(T.site) : Len(T.map[T.site[p].sp]) > 1 }
ActiveNumber(T, p) == Cardinality({ q \in ActiveIds(T) : q <= p })
Shift(T, a, b, c) == VPlus(VPlus(VTimes(a, T.lat[1]), VTimes(b, T.lat[2])), VTimes(c, T.lat[3]))
\* all active sites, periodic images included, within squared distance k of the centre
Sphere(T, R, c, k, excl) ==
  { e \in { [p |-> ActiveNumber(T, p), x |-> VMinus(VPlus(T.site[p].x, Shift(T, a, b, d)), c), sp |-> T.site[p].sp] :
            p \in ActiveIds(T), a \in (-R)..R, b \in (-R)..R, d \in (-R)..R } :
    Sq(e.x) <= k /\ ~(excl /\ Sq(e.x) = 0) }
KeyOf(T, e, key) == CASE key = "species" -> T.rank[e.sp] [] key = "x" -> e.x[1] [] key = "y" -> e.x[2] [] key = "z" -> e.x[3]
RECURSIVE LexLe(_, _, _, _)
LexLe(T, keys, a, b) ==
  IF keys = <<>> THEN TRUE
  ELSE LET u == KeyOf(T, a, keys[1])  v == KeyOf(T, b, keys[1]) IN u < v \/ (u = v /\ LexLe(T, Tail(keys), a, b))
Lists(env, S) == Len(env) = Cardinality(S) /\ { env[i] : i \in 1..Len(env) } = S
Ordered(T, keys, env) == \A i \in 1..(Len(env) - 1) : LexLe(T, keys, env[i], env[i + 1])

\* --- congruence ---------------------------------------------------------
DistTable(env) == [i \in 1..Len(env) |-> [j \in 1..Len(env) |-> Sq(VMinus(env[i].x, env[j].x))]]
\* extend a partial map of the first m places of the list a of sites (in env ea with distances
\* da) into the list b, one place at a time
RECURSIVE Extends(_, _, _, _, _, _, _)
Extends(ea, da, a, eb, db, b, f) ==
  IF Len(f) = Len(a) THEN TRUE
  ELSE LET m == Len(f) + 1 IN
       \E j \in 1..Len(b) :
         /\ \A i \in 1..Len(f) : f[i] # j
         /\ ea[a[m]].sp = eb[b[j]].sp
         /\ \A i \in 1..Len(f) : da[a[m]][a[i]] = db[b[j]][b[f[i]]]
         /\ Extends(ea, da, a, eb, db, b, Append(f, j))
Congruent(ea, da, a, eb, db, b) == Len(a) = Len(b) /\ Extends(ea, da, a, eb, db, b, <<>>)
Everything(env) == [i \in 1..Len(env) |-> i]
Equivalent(ea, eb) == Congruent(ea, DistTable(ea), Everything(ea), eb, DistTable(eb), Everything(eb))
\* a witness: site w[i] of eb plays the part of site i of ea
Plays(ea, eb, w) ==
  /\ Len(w) = Len(ea) /\ Len(eb) = Len(ea) /\ { w[i] : i \in 1..Len(w) } = 1..Len(eb)
  /\ \A i \in 1..Len(ea) : ea[i].sp = eb[w[i]].sp
  /\ \A i, j \in 1..Len(ea) : Sq(VMinus(ea[i].x, ea[j].x)) = Sq(VMinus(eb[w[i]].x, eb[w[j]].x))

\* --- clusters and orbits ------------------------------------------------
\* increasing sequences of k of the numbers lo..n, in lexicographic order
RECURSIVE Choices(_, _, _)
Choices(lo, n, k) ==
  IF k = 0 THEN << <<>> >>
  ELSE IF (n - lo) + 1 < k THEN <<>>
  ELSE LET with == Choices(lo + 1, n, k - 1) IN
       [i \in 1..Len(with) |-> <<lo>> \o with[i]] \o Choices(lo + 1, n, k)
Short(d, c, lim) == \A i, j \in 1..Len(c) : i < j => d[c[i]][c[j]] <= lim
\* lim[k]: largest squared length of a k-site cluster, negative when there is none
Clusters(d, n, lim) ==
  LET keep(k) == SelectSeq(Choices(1, n, k), LAMBDA c : lim[k] >= 0 /\ Short(d, c, lim[k]))
  IN  keep(1) \o keep(2) \o keep(3) \o keep(4)
RECURSIVE Grouped(_, _, _, _)
Grouped(env, d, cs, orbits) ==
  IF cs = <<>> THEN orbits
  ELSE LET c == Head(cs)
           hits == { o \in 1..Len(orbits) : Congruent(env, d, orbits[o][1], env, d, c) }
           next == IF hits = {} THEN Append(orbits, <<c>>)
                   ELSE LET o == CHOOSE h \in hits : \A g \in hits : h <= g IN [orbits EXCEPT ![o] = Append(@, c)]
       IN  Grouped(env, d, Tail(cs), TLCEval(next))
Orbits(env, lim) == LET d == TLCEval(DistTable(env)) IN Grouped(env, d, TLCEval(Clusters(d, Len(env), lim)), <<>>)

\* --- features -----------------------------------------------------------
\* 27 times the Chebyshev polynomials T_1, T_2, T_3 on 2, 3 and 4 evenly spaced states
Cheb(q, s, m) ==
  CASE q = 2 -> (IF s = 0 THEN -27 ELSE 27)
    [] q = 3 -> (IF m = 1 THEN 27 * (s - 1) ELSE IF s = 1 THEN -27 ELSE 27)
    [] q = 4 -> (CASE m = 1 -> 9 * ((2 * s) - 3)
                   [] m = 2 -> (IF s \in {0, 3} THEN 27 ELSE -21)
                   [] m = 3 -> <<-27, 23, -23, 27>>[s + 1])
SiteValue(basis, q, s, m) == IF basis = "occupation" THEN 27 * s ELSE Cheb(q, s, m)
\* decorations of a k-site orbit, every site function in turn, last place fastest
Counts(basis, qs, orbit) ==
  [i \in 1..Len(orbit[1]) |->
    IF basis = "occupation" THEN 1
    ELSE LET S == { qs[orbit[c][i]] - 1 : c \in 1..Len(orbit) } IN CHOOSE x \in S : \A y \in S : x <= y]
RECURSIVE Decorations(_)
Decorations(cnt) ==
  IF cnt = <<>> THEN << <<>> >>
  ELSE LET rest == Decorations(Tail(cnt))  m == Len(rest) IN
       [i \in 1..(Head(cnt) * m) |-> <<((i - 1) \div m) + 1>> \o rest[((i - 1) % m) + 1]]
RECURSIVE FlatFeatures(_, _, _)
FlatFeatures(basis, qs, orbits) ==
  IF orbits = <<>> THEN <<>>
  ELSE LET o == Head(orbits)  ds == Decorations(Counts(basis, qs, o)) IN
       [i \in 1..Len(ds) |-> [cl |-> o, dec |-> ds[i]]] \o FlatFeatures(basis, qs, Tail(orbits))
Pow27(k) == <<1, 27, 729, 19683, 531441>>[k + 1]
RECURSIVE Product(_, _, _, _, _)
Product(basis, qs, occ, c, dec) ==
  IF c = <<>> THEN 1
  ELSE SiteValue(basis, qs[c[1]], occ[c[1]], dec[1]) * Product(basis, qs, occ, Tail(c), Tail(dec))
RECURSIVE SumClusters(_, _, _, _, _)
SumClusters(basis, qs, occ, cl, dec) ==
  IF cl = <<>> THEN 0 ELSE Product(basis, qs, occ, Head(cl), dec) + SumClusters(basis, qs, occ, Tail(cl), dec)
\* 27^4 times the feature
Feature(basis, qs, occ, f) ==
  SumClusters(basis, qs, occ, f.cl, f.dec) * Pow27(4 - Len(f.dec))
Correlation(basis, qs, occ, fs) == [i \in 1..Len(fs) |-> Feature(basis, qs, occ, fs[i])]
States(T, env) == [i \in 1..Len(env) |-> Len(T.map[env[i].sp])]
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN 0 ELSE (Head(a) * Head(b)) + Dot(Tail(a), Tail(b))
=============================================================================
