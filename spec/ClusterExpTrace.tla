-------------------------- MODULE ClusterExpTrace --------------------------
(* Recorded local environments, cluster expansions and their features.      *)
EXTENDS ClusterExp, TraceIO
VARIABLES tr, i, envs, models
vars == <<tr, i, envs, models>>
Reach == 3
\* the codes of the species sp on the active sites
CodeOf(T, basis, p, s) ==
  LET alw == T.map[T.site[p].sp]  k == CHOOSE j \in 1..Len(alw) : alw[j] = s IN
  IF basis = "occupation" THEN (IF k = 1 THEN 1 ELSE 0) ELSE k - 1
NthActive(T, n) == CHOOSE p \in ActiveIds(T) : ActiveNumber(T, p) = n
CodesOf(T, basis, sp) == [n \in 1..Len(sp) |-> CodeOf(T, basis, NthActive(T, n), sp[n])]
Local(env, codes) == [j \in 1..Len(env) |-> codes[env[j].p]]
Sig(env) == [j \in 1..Len(env) |-> <<env[j].sp, env[j].x>>]

EnvClauses(t, o) ==
  LET T == [t.T EXCEPT !.rank = o.rank]
      legal == o.ci = 0 \/ o.ci \in ActiveIds(T)
      S == TLCEval(Sphere(T, Reach, o.c, o.cut, o.excl))
  IN  Fail("C21.refused:env", legal => o.ok) \cup Fail("C21.accepted:env", ~legal => ~o.ok) \cup
      Fail("C21.environment", (legal /\ o.ok) => Lists(o.env, S)) \cup
      Fail("C21.order", (legal /\ o.ok) => Ordered(T, o.keys, o.env))
CorrClauses(t, o) ==
  LET md == models[o.m]
      codes == TLCEval(CodesOf(t.T, o.basis, o.sp))
      legal == Sig(envs[o.f]) = Sig(md.env)
  IN  Fail("C21.refused:features", legal => o.ok) \cup Fail("C21.accepted:features", ~legal => ~o.ok) \cup
      Fail("C21.occupation", (legal /\ o.ok) => o.codes \in {<<>>, codes}) \cup
      Fail("C21.features", (legal /\ o.ok) => o.corr = Correlation(o.basis, md.qs, Local(envs[o.f], codes), md.fs))
EvalClauses(o) ==
  LET md == models[o.m] IN
  Fail("C21.value", /\ Len(o.keci) = Len(md.fs)
                    /\ o.val = Dot(o.keci, Correlation(o.basis, md.qs, o.loc, md.fs)) + (o.e0 * 531441))
MatchClauses(o) ==
  LET a == envs[o.e]  b == envs[o.f]  eqv == TLCEval(Equivalent(a, b)) IN
  Fail("C21.identity", o.same = (Sig(a) = Sig(b))) \cup
  Fail("C21.equivalent", o.eq = eqv) \cup Fail("C21.matched", o.ok = eqv) \cup
  Fail("C21.match", o.ok => Plays(a, b, o.w))
\* coefficients belong to one ordered environment and one list of features in its order
TakeClauses(o) ==
  LET a == models[o.m]  b == models[o.f]  legal == Sig(a.env) = Sig(b.env) /\ a.fs = b.fs /\ o.e = 0 IN
  Fail("C21.refused:coefficients", legal => o.ok) \cup Fail("C21.accepted:coefficients", ~legal => ~o.ok)
Clauses(t, o) ==
  CASE o.k = "env" -> EnvClauses(t, o)
    [] o.k = "corr" -> CorrClauses(t, o)
    [] o.k = "eval" -> EvalClauses(o)
    [] o.k = "match" -> MatchClauses(o)
    [] o.k = "take" -> TakeClauses(o)
    [] OTHER -> {}

TInit == /\ tr \in 1..Len(Traces) /\ i = 0 /\ envs = <<>> /\ models = <<>>
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.ops)
     THEN /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} })
          /\ Done(tr, i) /\ UNCHANGED <<envs, models>>
     ELSE LET o == t.ops[i + 1] IN
          /\ Report(tr, i + 1, Clauses(t, o))
          /\ envs' = IF o.k = "env" /\ o.ok THEN Append(envs, o.env) ELSE envs
          /\ models' = IF o.k # "model" THEN models
                       ELSE LET e == envs[o.e]  qs == States(t.T, e) IN
                            Append(models, [env |-> e, qs |-> qs, fs |-> TLCEval(FlatFeatures(o.basis, qs, TLCEval(Orbits(e, o.lim))))])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
