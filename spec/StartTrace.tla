----------------------------- MODULE StartTrace -----------------------------
(* Real simulations started (or refused) from files.                        *)
EXTENDS Start, TraceIO
K == INSTANCE KMCOps
VARIABLES tr, i
vars == <<tr, i>>
Bad(t) ==
  LET w == t.w  o == t.o IN
  IF Starts(w) # o.ok THEN { IF o.ok THEN "C13.accepted_mismatch" ELSE "C13.refused_match" }
  ELSE IF ~o.ok THEN {}
  ELSE Fail("C13.start_state", /\ o.occ = Occ0(w)
                               /\ IF FromCkpt(w) THEN o.time = w.st.time /\ o.step = w.st.step ELSE o.time = t.zero /\ o.step = 0) \cup
       Fail("C13.start_rates", o.rates = K!Rates(t.sys, Occ0(w)))
TInit == tr \in 1..Len(Traces) /\ i = 0
TNext ==
  LET t == Traces[tr] IN
  /\ i <= 1 /\ tr' = tr /\ i' = i + 1
  /\ IF i = 0 THEN Report(tr, 0, IF t.raised # "" THEN { "*.raised:" \o t.raised } ELSE Bad(t)) ELSE Done(tr, i)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
