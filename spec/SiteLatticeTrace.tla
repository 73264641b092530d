-------------------------- MODULE SiteLatticeTrace --------------------------
(* Recorded conversions between structures and occupations on real lattice  *)
(* objects.  A trace holds one template; objects are supercells of it (obj  *)
(* = [m, act]); queries name the sites in the order of their occupations.   *)
EXTENDS SiteLattice, TraceIO
VARIABLES tr, i, obj
vars == <<tr, i, obj>>

Total(o, r) == MatMul(r, obj[o].m)
AlwsAt(t, xs) == [k \in 1..Len(xs) |-> LET p == TemplateOf(t.T, t.G, xs[k]) IN IF p = 0 THEN <<>> ELSE Allowed(t.T, p)]
\* what must happen when atoms are read: "yes", "no", or "?" when positions are neither clearly
\* on a site nor clearly off all of them
Verdict(t, o) ==
  LET M == TLCEval(Total(o.s, o.r))  A == TLCEval(Adj(M))  n == Unit(t.G, M)
      al == TLCEval(AlwsAt(t, o.sites))
      near == TLCEval([k \in 1..Len(o.atoms) |-> Nearest(t.G, A, n, o.sites, o.atoms[k].x)])
      d2 == TLCEval([k \in 1..Len(o.atoms) |-> Off(t.G, A, n, o.sites[near[k]], o.atoms[k].x)])
      lim == o.tol * n
      far(k) == d2[k] > (((3 * lim) \div 2) * ((3 * lim) \div 2))
      close(k) == d2[k] < (((2 * lim) \div 3) * ((2 * lim) \div 3)) 
                  /\ \A j \in 1..Len(o.sites) : j # near[k] => (9 * d2[k]) < Off(t.G, A, n, o.sites[j], o.atoms[k].x)
      at == IF o.how = "map" THEN o.map ELSE near
  IN  IF o.how \in {"strain", "badmap"} THEN [v |-> "no", occ |-> <<>>]
      ELSE IF o.how # "map" /\ \E k \in 1..Len(o.atoms) : far(k) THEN [v |-> "no", occ |-> <<>>]
      ELSE IF o.how # "map" /\ \E k \in 1..Len(o.atoms) : ~close(k) THEN [v |-> "?", occ |-> <<>>]
      ELSE IF ~Fits(al, o.atoms, at) THEN [v |-> "no", occ |-> <<>>]
      ELSE [v |-> "yes", occ |-> OccGiven(al, o.basis, o.atoms, at)]

OccClauses(t, o) ==
  LET w == TLCEval(Verdict(t, o)) IN
  Fail("C22.refused:" \o o.how, w.v = "yes" => o.ok) \cup
  Fail("C22.accepted:" \o o.how, w.v = "no" => ~o.ok) \cup
  Fail("C22.occupation:" \o o.how, (w.v = "yes" /\ o.ok) => Agrees(o.codes, w.occ))
BackClauses(t, o) ==
  LET M == TLCEval(Total(o.s, o.r))  A == TLCEval(Adj(M))  n == Unit(t.G, M)
      al == TLCEval(AlwsAt(t, o.sites))
      good == Len(o.codes) = Len(o.sites) /\ \A k \in 1..Len(o.codes) : SpeciesOf(o.basis, al[k], o.codes[k]) # ""
      want == TLCEval(AtomsOf(o.sites, al, o.basis, o.codes))
  IN  Fail("C22.refused:back", good => o.ok) \cup Fail("C22.accepted:back", ~good => ~o.ok) \cup
      Fail("C22.lattice", o.lat) \cup
      Fail("C22.structure", (good /\ o.ok) =>
        /\ Len(o.atoms) = Cardinality(want)
        /\ \A w \in want : \E k \in 1..Len(o.atoms) : o.atoms[k].sp = w.sp /\ Frac(t.G, A, n, Minus(o.atoms[k].x, w.x)) = <<0, 0, 0>>)
Clauses(t, o) ==
  CASE o.k = "look" ->
         Fail("C22.sites", Names(t.T, t.G, obj[o.s].m, obj[o.s].act, o.sites)) \cup
         Fail("C22.allowed", o.allowed = AlwsAt(t, o.sites))
    [] o.k = "occ" -> Fail("C22.sites", Names(t.T, t.G, Total(o.s, o.r), obj[o.s].act, o.sites)) \cup OccClauses(t, o)
    [] o.k = "back" -> Fail("C22.sites", Names(t.T, t.G, Total(o.s, o.r), obj[o.s].act, o.sites)) \cup BackClauses(t, o)
    [] OTHER -> {}
Step(o) ==
  CASE o.k = "copy" -> Append(obj, obj[o.s])
    [] o.k = "super" -> [obj EXCEPT ![o.s].m = MatMul(o.r, @)]
    [] o.k = "active" -> Append(obj, [m |-> MatMul(o.r, obj[o.s].m), act |-> TRUE])
    [] OTHER -> obj

TInit == /\ tr \in 1..Len(Traces) /\ i = 0 /\ obj = << [m |-> Id, act |-> FALSE] >>
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.ops)
     THEN /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} })
          /\ Done(tr, i) /\ UNCHANGED obj
     ELSE LET o == t.ops[i + 1] IN
          /\ Report(tr, i + 1, Clauses(t, o))
          /\ obj' = Step(o)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
