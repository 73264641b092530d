-------------------------------- MODULE Runs --------------------------------
(* Simulation runs and the files they leave behind.                         *)
(* A run is started with inputs `key` (system, settings, seed) from a state *)
(* `start`; what it returns is a function of the two, whatever entry point  *)
(* started it and whatever ran before. Values are opaque tokens.            *)
(* result: [disp, hops, occ, rows, units, recs, end]                        *)
(*   recs = "" when no callback record was stored; end is the final state.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == ""
Prefix(label, last) == IF label = "" THEN ToString(last) ELSE label \o "_" \o ToString(last)
Suffix(label) == IF label = "" THEN "" ELSE "_" \o label
Ext == ".csv.gz"

\* the files a finished run writes; passes counts from 1
Files(res, label, passes) ==
  LET p == Prefix(label, passes - 1)  s == Suffix(label)
      trajectory == ("displacement_" \o p \o Ext) :> res.disp @@ ("hop_counter_" \o p \o Ext) :> res.hops
                    @@ ("current_occ_" \o p \o Ext) :> res.occ
      summary == ("results" \o s \o Ext) :> res.rows @@ ("results_units" \o s \o ".json.gz") :> res.units
      records == IF res.recs = None THEN <<>> ELSE ("properties" \o s \o ".json.gz") :> res.recs
  IN  IF res.recs = None THEN trajectory @@ summary ELSE trajectory @@ summary @@ records

\* G: [memo, dir, obj]; memo maps <<key, start>> to the result, dir file names to contents,
\* obj lists the simulations that still exist as [key, end]
New == [memo |-> <<>>, dir |-> <<>>, obj |-> <<>>]
Known(G, o) == <<o.key, o.start>> \in DOMAIN G.memo
Ran(G, o, res) ==
  LET sim == [key |-> o.key, end |-> res.end] IN
  [G EXCEPT !.memo = (<<o.key, o.start>> :> res) @@ @,
            !.dir = Files(res, o.label, o.passes) @@ @,
            !.obj = IF o.k = "again" THEN [@ EXCEPT ![o.s] = sim] ELSE Append(@, sim)]
=============================================================================
