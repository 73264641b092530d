----------------------------- MODULE MCFitData -----------------------------
(* All short histories of two loaders and a directory, and all small one-   *)
(* feature fits.                                                            *)
EXTENDS FitData
CONSTANTS Depth, Break, Span
Vals == -Span..Span
VARIABLES D, n, last
vars == <<D, n, last>>
\* two structures; features under two incompatible models of equal size
It(s, sig, ok) == [f |-> <<sig, s>>, q |-> s, y |-> "y" \o s, m |-> "", ok |-> ok, sig |-> sig]
Items == { It(s, sig, ok) : s \in {"a", "b"}, sig \in {"A", "B"}, ok \in {TRUE, FALSE} }
O(k) == [k |-> k, l |-> 1, items |-> <<>>, whole |-> TRUE, w |-> <<>>, nw |-> 0, d |-> "d"]
Lds == 1..Len(D.ld)
Batches == { <<x>> : x \in Items } \cup { <<x, y>> : x, y \in { z \in Items : z.sig = "A" } }
Ws == { <<"1">>, <<"1", "2">> }
Cmds == (IF Len(D.ld) < 2 THEN { O("loader") } ELSE {}) \cup
  { [O("add") EXCEPT !.l = l, !.items = b, !.whole = h] : l \in Lds, b \in Batches, h \in {TRUE, FALSE} } \cup
  { [O("write") EXCEPT !.l = l, !.w = w, !.nw = Len(w)] : l \in Lds, w \in Ws } \cup
  { [O("json") EXCEPT !.l = l] : l \in Lds }
Do(o) ==
  IF Break = "half" /\ o.k = "write" /\ ~Takes(D, o) /\ D.ld[o.l].rows # <<>> /\ D.dir[o.d].kind = "inputs"
  THEN { [D EXCEPT !.dir[o.d].rows = XY(D.ld[o.l].rows)] } ELSE Outcomes(D, o)
Init == D = NewData({"d"}) /\ n = 0 /\ last = O("")
Next == n < Depth /\ n' = n + 1 /\ \E o \in Cmds : last' = o /\ D' \in Do(o)
Spec == Init /\ [][Next]_vars
\* every row of a loader is over its features, and belongs together
Aligned == \A l \in Lds : \A k \in 1..Len(D.ld[l].rows) :
             LET r == D.ld[l].rows[k] IN r.f[1] = D.ld[l].sig /\ r.y = "y" \o r.q /\ r.f[2] = r.q
\* the files of a directory belong together
Together == D.dir["d"].kind = "inputs" => Len(D.dir["d"].rows) = Len(D.dir["d"].w)
Paired == \A k \in 1..Len(D.dir["d"].rows) : D.dir["d"].rows[k].y = "y" \o D.dir["d"].rows[k].f[2]
Growing == [][\A l \in Lds : Len(D.ld[l].rows) <= Len(D'.ld[l].rows) /\ SubSeq(D'.ld[l].rows, 1, Len(D.ld[l].rows)) = D.ld[l].rows]_vars
Others == [][\A l \in Lds : (last'.k # "add" \/ last'.l # l) => D'.ld[l] = D.ld[l]]_vars
\* one feature, three rows: the soft-thresholded slope cannot be improved
Data == { [x |-> <<<<a>>, <<b>>, <<1 - a - b>>>>, y |-> <<p, q, 40>>, w |-> <<1, 1, 1>>, s |-> <<100>>, alpha |-> al] :
          a \in Vals, b \in Vals, p \in {10, 60}, q \in {20, 90}, al \in {0, 8, 80} }
Mean3(t) == LET T(k) == t[k] IN SumTo(T, 3)
Slope(P) ==
  LET X(k) == P.x[k][1]
      mx == Mean3([k \in 1..3 |-> X(k)])  my == Mean3(P.y)
      sxy == LET T(k) == ((3 * X(k)) - mx) * ((3 * P.y[k]) - my) IN SumTo(T, 3)
      sxx == LET T(k) == ((3 * X(k)) - mx) * ((3 * X(k)) - mx) IN SumTo(T, 3)
      lam == (27 * P.alpha) \div 8            \* 9 n alpha
  IN  IF sxx = 0 THEN 0 ELSE IF Abs(sxy) <= lam THEN 0
      ELSE Near(1000 * (IF sxy > 0 THEN sxy - lam ELSE sxy + lam), sxx)
Cut(P, c) == LET T(k) == (1000 * P.y[k]) - (P.x[k][1] * c) IN Near(SumTo(T, 3), 3)
Exact(P) == Best(P, <<Slope(P)>>, Cut(P, Slope(P)))
\* and a fit that is clearly off is noticed
Noticed(P, d) == Spread(P) > 100000 => ~Best(P, <<Slope(P) + d>>, Cut(P, Slope(P)) + d)
SolvesOne == \A P \in Data : Exact(P)
ASSUME SolvesOne
ASSUME \A P \in Data : Noticed(P, 40000) /\ Noticed(P, -40000)
=============================================================================
