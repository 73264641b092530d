--------------------------- MODULE FitDataTrace ----------------------------
(* Recorded histories of real data loaders, their files and fits.           *)
EXTENDS FitData, TraceIO
VARIABLES tr, i, D
vars == <<tr, i, D>>
Names(t) == { t.names[k] : k \in 1..Len(t.names) }
Seen(D0, o) ==
  /\ Len(o.q.ld) = Len(D0.ld) /\ \A l \in 1..Len(D0.ld) : o.q.ld[l] = D0.ld[l].rows
  /\ \A n \in DOMAIN D0.dir : o.q.dir[n] = D0.dir[n]
FitClauses(o) ==
  LET P == o.P
      res == TLCEval([k \in 1..Len(P.y) |-> Resid(P, o.c, o.b, k)])
      fold(k) == [P EXCEPT !.x = Drop(@, k), !.y = Drop(@, k), !.w = [j \in 1..(Len(P.y) - 1) |-> 1], !.s = o.folds[k].s]
      loo == TLCEval([k \in 1..Len(o.folds) |-> Off(P, o.folds[k].c, o.folds[k].b, k)])
  IN  Fail("C24.best", /\ \A j \in 1..Len(o.c) : ScaleOk(P, o.norm, j)
                       /\ Best(P, o.c, o.b)) \cup
      Fail("C24.prediction", \A k \in 1..Len(P.y) : Abs(o.pred[k] - ((10 * P.y[k]) - res[k])) <= 1) \cup
      Fail("C24.truth", o.truth) \cup
      Fail("C24.rmse", RmsIs(res, o.rmse)) \cup
      Fail("C24.loocv", o.folds # <<>> => RmsIs(loo, o.loocv)) \cup
      Fail("C24.best:fold", \A k \in 1..Len(o.folds) : /\ \A j \in 1..Len(o.c) : ScaleOk(fold(k), o.norm, j)
                                                       /\ Best(fold(k), o.folds[k].c, o.folds[k].b))
Clauses(o) ==
  LET ok == Takes(D, o)  S == { E \in Outcomes(D, o) : Seen(E, o) } IN
  IF o.ok # ok THEN { IF ok THEN "C24.refused:" \o o.k ELSE "C24.accepted:" \o o.k }
  ELSE Fail("C24.rows:" \o o.k, S # {}) \cup (IF o.k = "fit" /\ o.fitted THEN FitClauses(o) ELSE {})
TInit == tr \in 1..Len(Traces) /\ i = 0 /\ D = NewData(Names(Traces[tr]))
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.ops)
     THEN /\ UNCHANGED D /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} }) /\ Done(tr, i)
     ELSE LET o == t.ops[i + 1]  S == { E \in Outcomes(D, o) : Seen(E, o) } IN
          /\ D' = IF S # {} THEN CHOOSE E \in S : TRUE ELSE CHOOSE E \in Outcomes(D, o) : TRUE
          /\ Report(tr, i + 1, Clauses(o))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
