------------------------------ MODULE Barrier ------------------------------
(* Ordered local-barrier rules.  A barrier model is a record                *)
(*   rules << rule >>   hasdef BOOLEAN   def  barrier (scaled integer)      *)
(*   sp << << species >> >>  species label of each site per state code,     *)
(*                           "" when undeclared                             *)
(* rule: [type, hasM, M, hasE, E, sel, sites, pat, st, spp, lo, hi, bar]    *)
(*   type  constant | exact | pattern | state_count | species_count         *)
(*   sel   canonical | local_env | mobile_ion | from | to | all | explicit  *)
(*   pat   state codes, -1 is the wildcard                                  *)
(*   lo/hi inclusive count window      bar  barrier                         *)
EXTENDS Hop

Mob2(ev) == <<ev.f, ev.t>>

RECURSIVE Dedup(_, _)
Dedup(seq, k) ==       \* first occurrences, in order
  IF k > Len(seq) THEN <<>>
  ELSE LET head == IF \E j \in 1..(k-1) : seq[j] = seq[k] THEN <<>> ELSE <<seq[k]>>
       IN  head \o Dedup(seq, k + 1)

Canonical(ev) == Dedup(Mob2(ev) \o ev.env, 1)

Selected(sys, ev, r) ==
  CASE r.sel = "canonical"  -> Canonical(ev)
    [] r.sel = "local_env"  -> ev.env
    [] r.sel = "mobile_ion" -> Mob2(ev)
    [] r.sel = "from"       -> <<ev.f>>
    [] r.sel = "to"         -> <<ev.t>>
    [] r.sel = "all"        -> [k \in 1..sys.n |-> k]
    [] OTHER                -> r.sites

InRange(sys, sel) == \A k \in 1..Len(sel) : sel[k] \in 1..sys.n

CountIf(sel, P(_)) == Cardinality({ k \in 1..Len(sel) : P(k) })

SpeciesAt(bm, s, code) ==
  IF s > Len(bm.sp) \/ code + 1 > Len(bm.sp[s]) THEN "" ELSE bm.sp[s][code + 1]

\* "T" matches, "F" does not, "E" the rule cannot be evaluated (an error)
Match(sys, bm, occ, ev, r) ==
  LET sel == Selected(sys, ev, r)
      gate == /\ (r.hasM => r.M = Mob2(ev))
              /\ (r.hasE => r.E = ev.env)
      B(b) == IF b THEN "T" ELSE "F"
  IN  IF ~gate THEN "F"
      ELSE CASE r.type = "constant" -> "T"
             [] r.type = "exact" ->
                  B([k \in 1..Len(Canonical(ev)) |-> occ[Canonical(ev)[k]]] = r.pat)
             [] r.type = "pattern" ->
                  IF ~InRange(sys, sel) \/ Len(sel) # Len(r.pat) THEN "E"
                  ELSE B(\A k \in 1..Len(sel) :
                            r.pat[k] = -1 \/ r.pat[k] = occ[sel[k]])
             [] r.type = "state_count" ->
                  IF ~InRange(sys, sel) THEN "E"
                  ELSE LET c == CountIf(sel, LAMBDA k : occ[sel[k]] = r.st)
                       IN  B(r.lo <= c /\ c <= r.hi)
             [] OTHER ->
                  IF ~InRange(sys, sel) THEN "E"
                  ELSE IF \E k \in 1..Len(sel) :
                            SpeciesAt(bm, sel[k], occ[sel[k]]) = "" THEN "E"
                  ELSE LET c == CountIf(sel, LAMBDA k :
                                  \E j \in 1..Len(r.spp) :
                                     r.spp[j] = SpeciesAt(bm, sel[k], occ[sel[k]]))
                       IN  B(r.lo <= c /\ c <= r.hi)

NoBarrier == -3        \* evaluation is an error

\* The barrier of an arbitrary event record ev: the first rule that matches
\* supplies it; no match falls back to the default, and without one it is an error.
BarrierOfEvent(sys, bm, occ, ev) ==
  LET hit == { i \in 1..Len(bm.rules) : Match(sys, bm, occ, ev, bm.rules[i]) # "F" }
      i0  == CHOOSE i \in hit : \A j \in hit : i <= j
  IN  IF hit = {} THEN (IF bm.hasdef THEN bm.def ELSE NoBarrier)
      ELSE IF Match(sys, bm, occ, ev, bm.rules[i0]) = "E" THEN NoBarrier
      ELSE bm.rules[i0].bar

BarrierOf(sys, occ, e) == BarrierOfEvent(sys, sys.bm, occ, sys.ev[e])

\* Rates are represented by their barrier; Zero stands for rate 0.
Zero == -1
Rate(sys, occ, e) ==
  IF Dir(sys, occ, e) = 0 THEN Zero ELSE BarrierOf(sys, occ, e)
Rates(sys, occ) == [e \in Events(sys) |-> Rate(sys, occ, e)]

\* Whether some rule looks at sites an event does not list (then a change
\* anywhere may change every rate).
NonLocal(sys) ==
  \E i \in 1..Len(sys.bm.rules) :
     LET r == sys.bm.rules[i]
     IN  r.type \in {"pattern", "state_count", "species_count"} /\ r.sel \in {"all", "explicit"}
=============================================================================
