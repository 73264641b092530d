----------------------------- MODULE Selection -----------------------------
(* How one kMC step is drawn.  Rates are given by integer weights w; the    *)
(* law is stated twice: as an inverse-CDF draw on a uniform grid (checked   *)
(* exhaustively for small weights) and as the statistical law that recorded *)
(* draws of the implementation have to follow.                              *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Total(_, _)
Total(w, k) == IF k = 0 THEN 0 ELSE Total(w, k - 1) + w[k]
W(w) == Total(w, Len(w))

\* Inverse-CDF draw: u/D is uniform, 0 <= u < D; first k with cum(k)/W > u/D.
Pick(w, u, D) == CHOOSE k \in 1..Len(w) :
                    /\ Total(w, k) * D > u * W(w)
                    /\ \A j \in 1..(k-1) : Total(w, j) * D <= u * W(w)

Abs(x) == IF x < 0 THEN -x ELSE x

\* a count c out of n draws is compatible with probability a/b (6 sigma)
Plausible(c, n, a, b) ==
  LET dev == Abs(c * b - n * a) \div b
      var == (((n * a) \div b) * (b - a)) \div b
  IN  dev < 40000 /\ dev * dev <= 36 * var + 36
=============================================================================
