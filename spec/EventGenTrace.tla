---------------------------- MODULE EventGenTrace ---------------------------
(* Event files written by the real generator against the geometry.          *)
EXTENDS EventGen, TraceIO
VARIABLES tr, i
vars == <<tr, i>>

Ev(t) == 1..Len(t.ev)
Count(s, x) == Cardinality({ k \in 1..Len(s) : s[k] = x })
EndpointsOk(t, e) == S(t.c, e.f).ini /\ S(t.c, e.t).tgt
\* every hop geometry within the cutoff exactly once, and nothing else
HopsOk(t, near) ==
  \A a, b \in N(t.c) : a < b =>
    Cardinality({ k \in Ev(t) : {t.ev[k].f, t.ev[k].t} = {a, b} }) =
      (IF Hop(t.c, a, b) THEN Cardinality(near[a][b]) ELSE 0)
\* a site's own periodic image is no hop
NoSelfHop(t) == \A k \in Ev(t) : t.ev[k].f # t.ev[k].t
EnvOk(t, near, e) == \A b \in N(t.c) : Count(e.env, b) = Cardinality(near[e.f][b])
\* the same primitive hop centre in another cell sees the translated sequence of sites
Shift(t, x, y) == [ k \in 1..3 |-> (y[k] - x[k]) % t.c.shape[k] ]
CellOf(t, s) == S(t.c, s).cell
TranslatedOk(t) ==
  \A p, q \in Ev(t) :
    LET e == t.ev[p]  g == t.ev[q] IN
    (S(t.c, e.f).prim = S(t.c, g.f).prim) =>
      /\ Len(e.env) = Len(g.env)
      /\ \A k \in 1..Len(e.env) :
           /\ S(t.c, e.env[k]).prim = S(t.c, g.env[k]).prim
           /\ Shift(t, CellOf(t, e.f), CellOf(t, e.env[k])) = Shift(t, CellOf(t, g.f), CellOf(t, g.env[k]))

\* w = [e, g, perm]: two events whose environments are congruent under perm (a certificate
\* found by the driver, checked here); their recorded orders then have to be congruent as well
Place(c, near, a, b) == Vec(c, a, b, CHOOSE n \in near[a][b] : TRUE)
Diff(u, v) == [ k \in 1..3 |-> u[k] - v[k] ]
Unique(near, e) == \A k \in 1..Len(e.env) : Cardinality(near[e.f][e.env[k]]) = 1
Same(t, near, e, g, perm) ==
  LET n == Len(e.env)
      x == [ k \in 1..n |-> Place(t.c, near, e.f, e.env[k]) ]
      y == [ k \in 1..n |-> Place(t.c, near, g.f, g.env[perm[k]]) ]
  IN  /\ \A k \in 1..n : S(t.c, e.env[k]).sp = S(t.c, g.env[perm[k]]).sp /\ S(t.c, e.env[k]).lab = S(t.c, g.env[perm[k]]).lab
      /\ \A k, l \in 1..n : Quad(t.c.gram, Diff(x[k], x[l])) = Quad(t.c.gram, Diff(y[k], y[l]))
CongruentOk(t, near) ==
  \A j \in 1..Len(t.wit) :
    LET w == t.wit[j]  e == t.ev[w.e]  g == t.ev[w.g] IN
    (Unique(near, e) /\ Unique(near, g) /\ Len(e.env) = Len(g.env) /\ Same(t, near, e, g, w.perm))
      => Same(t, near, e, g, [ k \in 1..Len(e.env) |-> k ])

Sites(e) == {e.f, e.t} \cup { e.env[k] : k \in 1..Len(e.env) }
DepsOk(t) == /\ Len(t.deps) = Len(t.ev)
             /\ \A p \in Ev(t) : \A q \in Ev(t) :
                  ({t.ev[p].f, t.ev[p].t} \cap Sites(t.ev[q]) # {}) => (\E k \in 1..Len(t.deps[p]) : t.deps[p][k] = q - 1)

\* strict matching: environments of one composition whose extents differ are refused
Around(c, a) == { <<b, n>> \in N(c) \X Images(c) : LET d == Quad(c.gram, Vec(c, a, b, n)) IN d > 0 /\ d <= c.q[S(c, a).sp][S(c, b).sp] }
KindCount(c, env, k) == Cardinality({ x \in env : <<S(c, x[1]).sp, S(c, x[1]).lab>> = k })
Alike(c, e, g) ==
  /\ Cardinality(e) = Cardinality(g)
  /\ \A x \in e : LET k == <<S(c, x[1]).sp, S(c, x[1]).lab>> IN KindCount(c, e, k) = KindCount(c, g, k)
Lengths(c, a, env) ==
  { Quad(c.gram, Diff(Vec(c, a, x[1], x[2]), Vec(c, a, y[1], y[2]))) : x, y \in env }
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
Incongruent(c) ==
  LET ini == TLCEval({ a \in N(c) : S(c, a).ini /\ (\A x \in 1..3 : S(c, a).cell[x] = 0) })
      env == TLCEval([ a \in ini |-> TLCEval(Around(c, a)) ])
      ext == TLCEval([ a \in ini |-> MaxOf(Lengths(c, a, env[a]) \cup {0}) ])
  IN  \E a, b \in ini : a < b /\ Alike(c, env[a], env[b]) /\ (10 * ext[a] > 11 * ext[b] \/ 10 * ext[b] > 11 * ext[a])
AnyHop(c) == \E a, b \in N(c) : a < b /\ Hop(c, a, b) /\ Near(c, a, b) # {}
Bad(t) ==
  \* the event file, and the reference environments only when they were asked for
  Fail("C15.files", IF t.asked THEN t.made => t.stray > 0 ELSE t.stray = 0) \cup
  Fail("C15.strict", (t.strict /\ ~t.refused) => ~Incongruent(t.c)) \cup
  IF t.refused THEN Fail("C15.refused_match", t.strict /\ t.bent)
  ELSE IF ~t.made THEN Fail("C15.refused_without_reason", ~AnyHop(t.c))
  ELSE LET near == TLCEval([ a \in N(t.c) |-> [ b \in N(t.c) |-> TLCEval(Near(t.c, a, b)) ] ]) IN
       Fail("C15.endpoints", \A k \in Ev(t) : EndpointsOk(t, t.ev[k])) \cup
       Fail("C15.hops", HopsOk(t, near) /\ NoSelfHop(t)) \cup
       (IF \A k \in Ev(t) : EnvOk(t, near, t.ev[k]) THEN Fail("C15.order", CongruentOk(t, near)) ELSE {"C15.environment"}) \cup
       Fail("C15.translation", TranslatedOk(t)) \cup
       Fail("C15.index_space", t.valid) \cup Fail("C15.dependencies", DepsOk(t))

TInit == tr \in 1..Len(Traces) /\ i = 0
TNext ==
  LET t == Traces[tr] IN
  /\ i <= 1 /\ tr' = tr /\ i' = i + 1
  /\ IF i = 0 THEN Report(tr, 0, IF t.raised # "" THEN { "*.raised:" \o t.raised } ELSE Bad(t)) ELSE Done(tr, i)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
