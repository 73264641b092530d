--------------------------- MODULE TransportTrace ---------------------------
(* Recorded summary rows of the real tracker.  Each sample carries the      *)
(* inputs (x), which fields are enabled, and what was reported.             *)
EXTENDS Transport, TraceIO
VARIABLES tr, i
vars == <<tr, i>>

\* displacements summed up from single hops (s.summed) carry rounding errors: where the
\* collective displacement is exactly zero, the reported ratio has no meaning
FieldOK(s, f) ==
  IF ~s.en[f] THEN s.obs[f] = NaN
  ELSE \/ s.obs[f] = Value(s.x, f)
       \/ f = "havens_ratio" /\ s.summed /\ SumVec(s.x.d, N(s.x)) = <<0, 0, 0>>

SampleClauses(s) ==
  UNION { Fail("C06." \o f, FieldOK(s, f)) : f \in Fields }

Bad(k, j) ==
  LET t == Traces[k] IN
  IF j = 0 THEN { "*.raised:" \o x : x \in { t.raised } \ {""} }
             \cup Fail("C06.units", t.unitsok) \cup Fail("C06.rows", t.rowsok)
  ELSE SampleClauses(t.samples[j])

TInit == tr \in 1..Len(Traces) /\ i = -1
TNext ==
  /\ i < Len(Traces[tr].samples)
  /\ i' = i + 1 /\ tr' = tr
  /\ Report(tr, i', Bad(tr, i'))
  /\ (i' = Len(Traces[tr].samples) => Done(tr, i'))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
