------------------------------ MODULE RunsTrace -----------------------------
(* Recorded sequences of real runs in one directory.                        *)
(* op: [k, s, key, start, label, passes, seen, res, files]                  *)
EXTENDS Runs, TraceIO
VARIABLES tr, i, G
vars == <<tr, i, G>>
TInit == tr \in 1..Len(Traces) /\ i = 0 /\ G = New
\* the final state of a run started from the command line is not visible ("?")
Part(a, b) == { f \in {"disp", "hops", "occ", "rows", "units", "recs", "end"} : a[f] # b[f] /\ a[f] # "?" /\ b[f] # "?" }
Clauses(o) ==
  LET H == Ran(G, o, o.res)
      Obs == { <<o.files[k].n, o.files[k].tok>> : k \in 1..Len(o.files) }
      Want == { <<n, H.dir[n]>> : n \in DOMAIN H.dir }
  IN  { "C18.reproducible:" \o f : f \in IF Known(G, o) THEN Part(G.memo[<<o.key, o.start>>], o.res) ELSE {} } \cup
      { "C18.file:" \o x[1] : x \in (Want \ Obs) \cup (Obs \ Want) } \cup
      Fail("C18.continues", o.k = "again" => G.obj[o.s].end = o.start /\ G.obj[o.s].key = o.key)
TNext ==
  LET t == Traces[tr] IN
  /\ i <= Len(t.ops) /\ tr' = tr /\ i' = i + 1
  /\ IF i = Len(t.ops)
     THEN /\ G' = G /\ Report(tr, i, { "*.raised:" \o x : x \in { t.raised } \ {""} }) /\ Done(tr, i)
     ELSE LET o == t.ops[i + 1] IN
          /\ G' = Ran(G, o, o.res)
          /\ Report(tr, i + 1, Clauses(o))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
