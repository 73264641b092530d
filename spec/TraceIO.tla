------------------------------ MODULE TraceIO ------------------------------
(* Reading recorded traces and reporting verdicts.  Every trace must end    *)
(* with a DONE line and every violated clause gives a FAIL line; the runner *)
(* treats a missing DONE as a failure, so a verdict is always total.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

Fail(name, ok) == IF ok THEN {} ELSE {name}

Report(k, j, bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("FAIL|" \o ToString(k) \o "|" \o ToString(j) \o "|" \o ToString(bad))
Done(k, j) == PrintT("DONE|" \o ToString(k) \o "|" \o ToString(j))
=============================================================================
