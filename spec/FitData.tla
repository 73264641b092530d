------------------------------ MODULE FitData ------------------------------
(* From barriers to coefficients.  A loader collects rows (features of one  *)
(* structure, its barrier, its metadata) over one set of features; the      *)
(* files it writes are read by the fit, which solves                        *)
(*   min  sum_i w_i (y_i - b - x_i.c)^2 / (2 sum w)  +  alpha sum_j s_j|c_j|*)
(*   D.ld   << [sig, rows] >>      D.dir  name -> [rows, w] or none         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoSig == ""
Nothing == [kind |-> "none", rows |-> <<>>, w |-> <<>>]
NewData(names) == [ld |-> <<>>, dir |-> [n \in names |-> Nothing]]
Pick(s) == [f |-> s.f, q |-> s.q, y |-> s.y, m |-> s.m]
Good(L, it) == it.ok /\ (L.sig = NoSig \/ L.sig = it.sig)
\* items that precede the first one that cannot be added
Leading(L, its) == Cardinality({ k \in 1..Len(its) : \A j \in 1..k : Good(L, its[j]) })
With(L, its, n) == IF n = 0 THEN L ELSE [sig |-> its[1].sig, rows |-> L.rows \o [k \in 1..n |-> Pick(its[k])]]
XY(rows) == [k \in 1..Len(rows) |-> [f |-> rows[k].f, y |-> rows[k].y]]

Takes(D, o) ==
  CASE o.k = "loader" -> TRUE
    [] o.k = "add" -> o.whole /\ Leading(D.ld[o.l], o.items) = Len(o.items)
    [] o.k = "write" -> D.ld[o.l].rows # <<>> /\ o.nw = Len(D.ld[o.l].rows)
    [] o.k = "json" -> D.ld[o.l].rows # <<>>
    [] OTHER -> TRUE
\* the possible outcomes: a refused batch may have added the items before the bad one, nothing else
Outcomes(D, o) ==
  IF Takes(D, o)
  THEN { CASE o.k = "loader" -> [D EXCEPT !.ld = Append(@, [sig |-> NoSig, rows |-> <<>>])]
           [] o.k = "add" -> [D EXCEPT !.ld[o.l] = With(@, o.items, Len(o.items))]
           [] o.k = "write" -> [D EXCEPT !.dir[o.d] = [kind |-> "inputs", rows |-> XY(D.ld[o.l].rows), w |-> o.w]]
           [] o.k = "json" -> [D EXCEPT !.dir[o.d] = [kind |-> "json", rows |-> D.ld[o.l].rows, w |-> <<>>]]
           [] OTHER -> D }
  ELSE IF o.k = "add" /\ o.whole THEN { D, [D EXCEPT !.ld[o.l] = With(@, o.items, Leading(D.ld[o.l], o.items))] }
  ELSE { D }

-----------------------------------------------------------------------------
(* The fit, in integers: x, w whole, y in 1, coefficients c and b in 1/1000,*)
(* residuals in 1/10, alpha in 1/8, scales in 1/100.                        *)
Abs(n) == IF n < 0 THEN -n ELSE n
Clip(n, m) == IF n > m THEN m ELSE IF n < -m THEN -m ELSE n
SumTo(F(_), n) == LET g[k \in 0..n] == IF k = 0 THEN 0 ELSE F(k) + g[k - 1] IN g[n]
Near(n, d) == IF n < 0 THEN -((-n + (d \div 2)) \div d) ELSE (n + (d \div 2)) \div d
Off(P, c, b, k) == LET T(j) == P.x[k][j] * c[j] IN (10 * P.y[k]) - Near(SumTo(T, Len(c)) + b, 100)
Resid(P, c, b, k) == Clip(Off(P, c, b, k), 5000)
Weight(P) == LET T(k) == P.w[k] IN SumTo(T, Len(P.w))
Penalty(P, c) == LET T(j) == Near(Weight(P) * P.alpha * 10, 40) * Clip((P.s[j] * Abs(c[j])) \div 1000, 200000) IN SumTo(T, Len(c))
Cost(P, c, b) == LET T(k) == P.w[k] * Resid(P, c, b, k) * Resid(P, c, b, k) IN SumTo(T, Len(P.y)) + Penalty(P, c)
Misfit(P, c, b) == LET T(k) == P.w[k] * Abs(Resid(P, c, b, k)) IN SumTo(T, Len(P.y))
\* spread of the data about their weighted mean
Spread(P) == LET T(k) == P.w[k] * P.y[k]
                 mean == Near(10 * SumTo(T, Len(P.y)), Weight(P))
                 V(k) == P.w[k] * ((10 * P.y[k]) - mean) * ((10 * P.y[k]) - mean)
             IN  SumTo(V, Len(P.y))
Slack(P, c, b) == (Spread(P) \div 100) + (4 * Misfit(P, c, b)) + (60 * Weight(P))
Steps == {-100000, -20000, -4000, 4000, 20000, 100000}
\* no single coefficient can be changed for a better fit
Best(P, c, b) ==
  LET here == Cost(P, c, b) - Slack(P, c, b) IN
  /\ \A j \in 1..Len(c) : \A d \in Steps \cup {-c[j]} : Cost(P, [c EXCEPT ![j] = Clip(@ + d, 1200000)], b) >= here
  /\ \A d \in Steps : Cost(P, c, b + d) >= here
\* scales: 1, or the length of the feature about its weighted mean (0 counts as 1)
ScaleOk(P, norm, j) ==
  IF ~norm THEN P.s[j] = 100
  ELSE LET W == Weight(P)
           M(k) == P.w[k] * P.x[k][j]
           mean == SumTo(M, Len(P.y))
           V(k) == ((W * P.x[k][j]) - mean) * ((W * P.x[k][j]) - mean)
           len2 == SumTo(V, Len(P.y))
       IN  IF len2 = 0 THEN P.s[j] = 100
           ELSE LET q == (W * P.s[j]) IN ((q - W) \div 10) * ((q - W) \div 10) <= 100 * len2 /\ 100 * len2 <= (((q + W) \div 10) + 1) * (((q + W) \div 10) + 1)
\* root mean square (1/10) of the given errors (1/10)
RmsIs(e, v) ==
  LET S(k) == e[k] * e[k]  A(k) == Abs(e[k])  n == Len(e) IN
  (\A k \in 1..n : Abs(e[k]) <= 12000) =>
  Abs((n * v * v) - SumTo(S, n)) <= (SumTo(S, n) \div 50) + (6 * SumTo(A, n)) + (6 * n * (Abs(v) + 2))
Drop(s, k) == [j \in 1..(Len(s) - 1) |-> IF j < k THEN s[j] ELSE s[j + 1]]
=============================================================================
