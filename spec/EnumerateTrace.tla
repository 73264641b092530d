--------------------------- MODULE EnumerateTrace ---------------------------
(* Recorded enumerations of local environments and hop ends.                *)
EXTENDS Enumerate, TraceIO
VARIABLES tr, i
vars == <<tr, i>>
Reach == 3

Where(t, o) == TLCEval(Sphere(t.T, Reach, o.c, o.cut, o.excl))
Asked(o) == RangeOf(o.ask)
Count(o) == IF o.cnt = <<>> THEN NoCount
            ELSE [e \in { o.cnt[j].e : j \in 1..Len(o.cnt) } |-> (CHOOSE c \in RangeOf(o.cnt) : c.e = e).n]
Inside(t, o) == \A j \in 1..Len(o.named) : o.named[j] <= NumActive(t.T)
Accepted(t, o, S) == o.max >= 1 /\ Inside(t, o) /\ Legal(t.T, Asked(o), S, o.named, Count(o))
By(x) == [n \in { x.by[j].n : j \in 1..Len(x.by) } |-> (CHOOSE c \in RangeOf(x.by) : c.n = n).e]
\* atoms modulo lattice vectors: recorded positions are those of the template sites
SameAtoms(xs, want) == Len(xs) = Cardinality(want) /\ RangeOf(xs) = want

EnumClauses(t, o) ==
  LET T == [t.T EXCEPT !.rank = o.rank]
      S == Where(t, o)
      legal == TLCEval(Accepted(t, o, S))
      want == TLCEval(Assignments(T, Asked(o), S, o.named, Count(o)))
      got == TLCEval({ By(o.res[j]) : j \in 1..Len(o.res) })
  IN  Fail("C23.refused", legal => o.ok) \cup Fail("C23.accepted", ~legal => ~o.ok) \cup
      (IF ~(legal /\ o.ok) THEN {} ELSE
       Fail("C23.each-once", Cardinality(got) = Len(o.res)) \cup
       Fail("C23.only-asked", got \subseteq want) \cup
       Fail("C23.complete", o.all => Len(o.res) = (IF Cardinality(want) < o.max THEN Cardinality(want) ELSE o.max)) \cup
       Fail("C23.limit", Len(o.res) <= o.max) \cup
       Fail("C23.repeat", o.again) \cup
       (IF o.res = <<>> THEN {} ELSE
        Fail("C23.environment", Listing(T, o.keys, S, o.loc)) \cup
        Fail("C23.variable", RangeOf(o.vars) = Varied(T, Asked(o), S, o.named)) \cup
        Fail("C23.occupation", \A j \in 1..Len(o.res) :
          /\ o.res[j].codes = Assigned(T, o.basis, o.base, By(o.res[j]))
          /\ o.res[j].local = [m \in 1..Len(o.loc) |-> o.res[j].codes[o.loc[m]]]) \cup
        Fail("C23.structure", \A j \in 1..Len(o.res) : SameAtoms(o.res[j].atoms, Atoms(T, o.basis, o.res[j].codes)))))
PairOk(T, o, codes, p) ==
  /\ p.i = Start(T, o.basis, codes, o.a, o.b) /\ p.f = End(T, o.basis, codes, o.a, o.b)
  /\ SameAtoms(p.ia, Atoms(T, o.basis, p.i)) /\ SameAtoms(p.fa, Atoms(T, o.basis, p.f))
  /\ Cardinality({ j \in 1..Len(p.ia) : p.ia[j] # p.fa[j] }) = 1
  /\ \A j \in 1..Len(p.ia) : p.ia[j].sp = p.fa[j].sp
PairClauses(t, o) ==
  LET legal == Len(o.given) = NumActive(t.T) /\ HopLegal(t.T, o.a, o.b) IN
  Fail("C23.refused:hop", legal => o.ok) \cup Fail("C23.accepted:hop", ~legal => ~o.ok) \cup
  Fail("C23.ends", (legal /\ o.ok) => PairOk(t.T, o, o.given, o.pairs[1]))
PairsClauses(t, o) ==
  LET S == Where(t, o)
      legal == TLCEval(Accepted(t, o, S))
      hop == HopLegal(t.T, o.a, o.b)
      want == TLCEval(Assignments(t.T, Asked(o), S, o.named, Count(o)))
      started == TLCEval({ Assigned(t.T, o.basis, o.base, f) : f \in want })
  IN  IF legal /\ want = {} /\ o.ok THEN Fail("C23.complete:pairs", o.pairs = <<>>)
      ELSE IF legal /\ want = {} THEN {}
      ELSE Fail("C23.refused:pairs", (legal /\ hop) => o.ok) \cup Fail("C23.accepted:pairs", ~(legal /\ hop) => (~o.ok \/ (legal /\ ~o.all /\ o.pairs = <<>>))) \cup
           (IF ~(legal /\ hop /\ o.ok) THEN {} ELSE
            Fail("C23.complete:pairs", o.all => Len(o.pairs) = (IF Cardinality(want) < o.max THEN Cardinality(want) ELSE o.max)) \cup
            Fail("C23.ends:pairs", \A j \in 1..Len(o.pairs) : \E c \in started : PairOk(t.T, o, c, o.pairs[j])) \cup
            Fail("C23.each-once:pairs", (o.all /\ Cardinality(want) <= o.max) =>
              \A c \in started : Cardinality({ j \in 1..Len(o.pairs) : o.pairs[j].i = Start(t.T, o.basis, c, o.a, o.b) })
                                 = Cardinality({ d \in started : Start(t.T, o.basis, d, o.a, o.b) = Start(t.T, o.basis, c, o.a, o.b) })))
Clauses(t, o) == CASE o.k = "enum" -> EnumClauses(t, o) [] o.k = "pair" -> PairClauses(t, o) [] OTHER -> PairsClauses(t, o)

TInit == /\ tr \in 1..Len(Traces) /\ i = 0
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.ops)
     THEN /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} }) /\ Done(tr, i)
     ELSE Report(tr, i + 1, Clauses(t, t.ops[i + 1]))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
