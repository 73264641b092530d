---------------------------- MODULE SamplingTrace ----------------------------
(* Recorded operations on real trackers and KMC objects against Sampling.   *)
EXTENDS Sampling, TraceIO
VARIABLES tr, i, G
vars == <<tr, i, G>>

Ops(k) == Traces[k].ops

Lists(T, o) ==
  /\ { o.on[j] : j \in 1..Len(o.on) } = Filter(T, TRUE)
  /\ { o.off[j] : j \in 1..Len(o.off) } = Filter(T, FALSE)
  /\ { o.boff[j] : j \in 1..Len(o.boff) } = T.off
  /\ Len(o.on) + Len(o.off) = Len(T.atts)

RecsOf(T) == [k \in 1..Len(T.atts) |-> [name |-> T.atts[k].name, recs |-> T.atts[k].recs]]

\* a field is missing from a row when it was switched off at that moment; the two that need no elapsed time only then
RowsOff(T, q) ==
  /\ Len(q.nans) = Len(T.offs)
  /\ \A k \in 1..Len(q.nans) :
       LET nan == { q.nans[k][j] : j \in 1..Len(q.nans[k]) } IN
       /\ T.offs[k] \subseteq nan
       /\ nan \cap {"msd", "correlation_factor"} \subseteq T.offs[k]

Clauses(G1, G2, o) ==
  LET q == o.obs
      acc == o.k \in {"sample", "run"} \/ Accepts(G1, o)
  IN
  Fail("C08.refused", q.refused = ~acc) \cup
  Fail("C07.calls", q.log = G2.log) \cup
  Fail("C07.args", q.argsok) \cup
  Fail("C08.error", (q.err # "") = (G2.err # "")) \cup
  Fail("C08.names", q.names = Names(Target(G2))) \cup
  Fail("C08.enabled", Lists(Target(G2), q)) \cup
  (IF ~q.trk THEN {} ELSE
     Fail("C07.rows", q.rows = G2.trk.rows) \cup
     Fail("C08.rows_off", RowsOff(G2.trk, q)) \cup
     Fail("C08.records", q.recs = RecsOf(G2.trk)))

TInit == /\ tr \in 1..Len(Traces) /\ i = 0
         /\ G = [Start(Traces[tr].kmc) EXCEPT !.trk.gi = Traces[tr].gi0]
TNext ==
  /\ i <= Len(Ops(tr)) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(Ops(tr))
     THEN /\ G' = G
          /\ Report(tr, i, { "*.raised:" \o x : x \in { Traces[tr].raised } \ {""} })
          /\ Done(tr, i)
     ELSE LET o == Ops(tr)[i + 1] IN
          /\ G' = Op(G, o)
          /\ ("skip" \in DOMAIN o.obs \/ Report(tr, i + 1, Clauses(G, G', o)))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
