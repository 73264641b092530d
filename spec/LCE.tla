-------------------------------- MODULE LCE --------------------------------
(* Local cluster expansions, site energies and composite barriers.          *)
(*                                                                          *)
(* A cluster expansion m is a record with                                   *)
(*   dec   TRUE when features are decorated with site basis functions       *)
(*   feat  << << <<local site>> >> >>   features, their clusters, the sites *)
(*   bas   << << <<basis index>> >> >>  same shape, used when dec           *)
(*   tab   << << <<value>> >> >>        [local site][state+1][basis]        *)
(*   keci  << coefficient >>            one per feature                     *)
(*   empty constant term                                                    *)
(* All numbers are integers (the drivers only build integral models).       *)
EXTENDS Hop

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f) == SumTo(f, Len(f))
RECURSIVE ProdTo(_, _)
ProdTo(f, k) == IF k = 0 THEN 1 ELSE f[k] * ProdTo(f, k - 1)
Prod(f) == ProdTo(f, Len(f))

\* value of one cluster: product over its sites of the site's own function
ClusterValue(m, loc, k, c) ==
  LET cl == m.feat[k][c]
  IN  Prod([q \in 1..Len(cl) |->
             IF m.dec THEN m.tab[cl[q]][loc[cl[q]] + 1][m.bas[k][c][q]] ELSE loc[cl[q]]])
Corr(m, loc, k) == Sum([c \in 1..Len(m.feat[k]) |-> ClusterValue(m, loc, k, c)])
LCEValue(m, loc) == m.empty + Sum([k \in 1..Len(m.feat) |-> m.keci[k] * Corr(m, loc, k)])
\* the local occupation: the environment sites in the event's own order
Local(occ, ev) == [k \in 1..Len(ev.env) |-> occ[ev.env[k]]]

(* An external energy model x: ext[map[s]] = val[s][occ[s]+1], all other    *)
(* entries keep base; E = sum h.v + sum J.v.v over the external entries.    *)
Ext(x, occ) ==
  LET hit == [e \in 1..Len(x.base) |-> { s \in 1..Len(occ) : x.map[s] = e }]
  IN  [e \in 1..Len(x.base) |->
         IF hit[e] = {} THEN x.base[e]
         ELSE LET s == CHOOSE s \in hit[e] : TRUE IN x.val[s][occ[s] + 1]]
ExtEnergy(x, v) ==
  Sum([e \in 1..Len(v) |-> x.h[e] * v[e]]) +
  Sum([k \in 1..Len(x.J) |-> (x.J[k][3] * v[x.J[k][1]]) * v[x.J[k][2]]])

\* signed energy change E_after - E_before of event e
SiteDelta(sys, occ, e) ==
  IF sys.site.kind = "none" THEN 0
  ELSE IF sys.site.kind = "lce" THEN Dir(sys, occ, e) * LCEValue(sys.site.lce, Local(occ, sys.ev[e]))
  ELSE ExtEnergy(sys.site.ext, Ext(sys.site.ext, Apply(sys, occ, e)))
       - ExtEnergy(sys.site.ext, Ext(sys.site.ext, occ))

\* twice the barrier, so that it stays an integer
Barrier2(sys, occ, e) == 2 * LCEValue(sys.kra, Local(occ, sys.ev[e])) + SiteDelta(sys, occ, e)
NoRate == -1000000001
Rate2(sys, occ, e) == IF Dir(sys, occ, e) = 0 THEN NoRate ELSE Barrier2(sys, occ, e)
=============================================================================
