-------------------------------- MODULE Occ --------------------------------
(* Occupation vectors: values over a basis, copied, sliced, flipped,        *)
(* converted and compared.  S is the list of vectors [b, v] made so far.    *)
(* A value 99 stands for a number between two values of a basis.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Basis(b) ==
  CASE b = "occ"   -> [name |-> "occ", cls |-> "occ", match |-> 1, mis |-> 0, vals |-> {0, 1}]
    [] b = "cheb"  -> [name |-> "cheb", cls |-> "cheb", match |-> 0, mis |-> 1, vals |-> {0, 1}]
    [] b = "cheb3" -> [name |-> "cheb", cls |-> "cheb", match |-> 0, mis |-> 1, vals |-> {0, 1, 2}]
    [] b = "cheb4" -> [name |-> "cheb", cls |-> "cheb", match |-> 0, mis |-> 1, vals |-> {0, 1, 2, 3}]
    [] b = "spin"  -> [name |-> "spin", cls |-> "spin", match |-> -1, mis |-> 1, vals |-> {-1, 1}]
    [] b = "real"  -> [name |-> "real", cls |-> "real", match |-> 2, mis |-> -2, vals |-> {-2, 2}]
Good(b, v) == \A k \in 1..Len(v) : v[k] \in Basis(b).vals
Flip(b, x) == IF x = Basis(b).match THEN Basis(b).mis ELSE Basis(b).match
RECURSIVE Flips(_, _, _)
Flips(b, v, I) == IF I = <<>> THEN v ELSE Flips(b, [v EXCEPT ![Head(I)] = Flip(b, @)], Tail(I))
RECURSIVE Sets(_, _, _)
Sets(v, I, w) == IF I = <<>> THEN v ELSE Sets([v EXCEPT ![Head(I)] = Head(w)], Tail(I), Tail(w))
Pick(v, I) == [k \in 1..Len(I) |-> v[I[k]]]
Change(a, b, v) ==
  IF Basis(a).cls = Basis(b).cls THEN v
  ELSE [k \in 1..Len(v) |-> IF v[k] = Basis(a).match THEN Basis(b).match ELSE Basis(b).mis]
Where(o, x) == SelectSeq([k \in 1..Len(o.v) |-> k], LAMBDA k : o.v[k] = x)
Pattern(o) == { k \in 1..Len(o.v) : o.v[k] = Basis(o.b).match }
Same(p, q) == Basis(p.b).name = Basis(q.b).name /\ p.v = q.v
Alike(p, q) == Len(p.v) = Len(q.v) /\ Pattern(p) = Pattern(q)

\* o = [k, s, b, v, I]
Accepts(S, o) == CASE o.k = "new" -> Good(o.b, o.v)
                   [] o.k = "set" -> Good(S[o.s].b, o.v)
                   [] OTHER -> TRUE
Vec(b, v) == [b |-> b, v |-> v]
Op(S, o) ==
  IF ~Accepts(S, o) THEN S
  ELSE CASE o.k = "new"  -> Append(S, Vec(o.b, o.v))
         [] o.k = "full" -> Append(S, Vec(o.b, [k \in 1..o.s |-> IF o.v[1] = 1 THEN Basis(o.b).match ELSE Basis(o.b).mis]))
         [] o.k = "set"  -> [S EXCEPT ![o.s].v = Sets(@, o.I, o.v)]
         [] o.k = "flip" -> Append(S, Vec(S[o.s].b, Flips(S[o.s].b, S[o.s].v, o.I)))
         [] o.k = "flipin" -> [S EXCEPT ![o.s].v = Flips(S[o.s].b, @, o.I)]
         [] o.k = "copy" -> Append(S, S[o.s])
         [] o.k = "pick" -> Append(S, Vec(S[o.s].b, Pick(S[o.s].v, o.I)))
         [] o.k = "conv" -> Append(S, Vec(o.b, Change(S[o.s].b, o.b, S[o.s].v)))
         [] OTHER -> S

\* site functions of n states: column k is T_k at the n equally spaced points, times (n-1)^k
RECURSIVE Cheb(_, _, _)
Cheb(n, x, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN x
                 ELSE (2 * x * Cheb(n, x, k - 1)) - ((n - 1) * (n - 1) * Cheb(n, x, k - 2))
SiteFun(n, j, k) == Cheb(n, (2 * j) - (n - 1), k)     \* state j in 0..n-1
=============================================================================
