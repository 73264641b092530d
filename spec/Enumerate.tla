----------------------------- MODULE Enumerate -----------------------------
(* Enumerated local environments and the two ends of a hop, over the        *)
(* crystals of ClusterExp.  Active sites carry codes: the place of their    *)
(* species in the allowed list (or present/absent of the first one).        *)
EXTENDS ClusterExp

Empty == "X"
NthActive(T, n) == CHOOSE p \in ActiveIds(T) : ActiveNumber(T, p) = n
AllowedAt(T, n) == T.map[T.site[NthActive(T, n)].sp]
NumActive(T) == Cardinality(ActiveIds(T))
StateCode(basis, k) == IF basis = "occupation" THEN (IF k = 1 THEN 1 ELSE 0) ELSE k - 1
PlaceOf(s, e) == LET S == { j \in 1..Len(s) : s[j] = e } IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A l \in S : j <= l
SpCode(T, basis, n, e) == StateCode(basis, PlaceOf(AllowedAt(T, n), e))
SpOf(T, basis, n, c) ==
  LET alw == AllowedAt(T, n)  S == { k \in 1..Len(alw) : StateCode(basis, k) = c } IN
  IF S = {} THEN "" ELSE alw[CHOOSE k \in S : \A j \in S : k <= j]
RangeOf(s) == { s[j] : j \in 1..Len(s) }

\* the sites of a local environment, listed by number in the order of the keys
Less(T, keys, a, b) == ~LexLe(T, keys, b, a)
Sits(T, keys, S, e, j) == /\ Cardinality({ x \in S : Less(T, keys, x, e) }) < j
                          /\ j <= Cardinality({ x \in S : LexLe(T, keys, x, e) })
Listing(T, keys, S, loc) ==
  /\ Len(loc) = Cardinality(S)
  /\ \A n \in 1..NumActive(T) : Cardinality({ j \in 1..Len(loc) : loc[j] = n }) = Cardinality({ e \in S : e.p = n })
  /\ \A j \in 1..Len(loc) : \E e \in S : e.p = loc[j] /\ Sits(T, keys, S, e, j)

\* species a variable site may take: the allowed ones, of those asked for ({} when all)
Offered(T, ask, n) == { e \in RangeOf(AllowedAt(T, n)) : ask = {} \/ e \in ask }
\* which sites vary: those named, or all of the environment with a choice
Varied(T, ask, S, named) ==
  IF named # <<>> THEN RangeOf(named) ELSE { n \in { e.p : e \in S } : Cardinality(Offered(T, ask, n)) > 1 }
Total(cnt) == LET RECURSIVE Sum(_)
                  Sum(D) == IF D = {} THEN 0 ELSE LET d == CHOOSE x \in D : TRUE IN cnt[d] + Sum(D \ {d})
              IN  Sum(DOMAIN cnt)
NoCount == <<>>
Legal(T, ask, S, named, cnt) ==
  LET V == Varied(T, ask, S, named) IN
  /\ RangeOf(named) \subseteq { e.p : e \in S }
  /\ \A n \in V : Offered(T, ask, n) # {}
  /\ (cnt = NoCount \/ Total(cnt) = Cardinality(V))
CountIn(f, V, e) == Cardinality({ n \in V : f[n] = e })
CountsMatch(f, V, cnt) ==
  cnt = NoCount \/ /\ \A e \in DOMAIN cnt : CountIn(f, V, e) = cnt[e]
                   /\ \A n \in V : f[n] \in DOMAIN cnt
RECURSIVE Functions(_, _, _)
Functions(T, ask, V) ==
  IF V = {} THEN { [x \in {} |-> ""] }
  ELSE LET n == CHOOSE x \in V : TRUE IN
       { [m \in V |-> IF m = n THEN e ELSE f[m]] : e \in Offered(T, ask, n), f \in Functions(T, ask, V \ {n}) }
Assignments(T, ask, S, named, cnt) ==
  LET V == Varied(T, ask, S, named) IN { f \in Functions(T, ask, V) : CountsMatch(f, V, cnt) }
Assigned(T, basis, base, f) == [n \in 1..Len(base) |-> IF n \in DOMAIN f THEN SpCode(T, basis, n, f[n]) ELSE base[n]]

\* the atoms of the full crystal with these codes on its active sites
Atoms(T, basis, codes) ==
  { a \in { [x |-> T.site[p].x, sp |-> IF p \in ActiveIds(T) THEN SpOf(T, basis, ActiveNumber(T, p), codes[ActiveNumber(T, p)]) ELSE T.site[p].sp] :
            p \in 1..Len(T.site) } : a.sp # Empty }

\* the ends of the hop of the mobile species from a to b
HopLegal(T, a, b) ==
  /\ a # b /\ a \in 1..NumActive(T) /\ b \in 1..NumActive(T)
  /\ AllowedAt(T, a)[1] # Empty /\ AllowedAt(T, a)[1] = AllowedAt(T, b)[1]
  /\ PlaceOf(AllowedAt(T, a), Empty) # 0 /\ PlaceOf(AllowedAt(T, b), Empty) # 0
Start(T, basis, codes, a, b) == [codes EXCEPT ![a] = SpCode(T, basis, a, AllowedAt(T, a)[1]), ![b] = SpCode(T, basis, b, Empty)]
End(T, basis, codes, a, b) == [codes EXCEPT ![b] = SpCode(T, basis, b, AllowedAt(T, b)[1]), ![a] = SpCode(T, basis, a, Empty)]
=============================================================================
