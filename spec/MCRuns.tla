------------------------------- MODULE MCRuns -------------------------------
(* All short schedules of runs: systems, entry points, labels, continued    *)
(* simulations. The engine is any function of inputs and start state.       *)
EXTENDS Runs, Json
CONSTANTS Depth, Gen, Leak
VARIABLES G, hist, who
vars == <<G, hist, who>>
Labels == {"", "a", "a_1"}
Vias == {"kmc", "api", "cli", "objects"}
O(k) == [k |-> k, via |-> "kmc", s |-> 1, key |-> "", start |-> "0", label |-> "", passes |-> 1]
Engine(key, start) ==
  LET t == key \o "/" \o start IN
  [disp |-> "d" \o t, hops |-> "h" \o t, occ |-> "o" \o t, rows |-> "r" \o t, units |-> "u",
   recs |-> IF key = "x" THEN "c" \o t ELSE None, end |-> t]
\* Leak: a planted defect in which a run sees how many runs went before it
Result(o) == IF Leak THEN Engine(o.key, o.start \o ToString(Len(hist))) ELSE Engine(o.key, o.start)
Cmds ==
  { [O("run") EXCEPT !.via = v, !.key = x, !.label = l, !.passes = p] :
      v \in Vias, x \in {"x", "y"}, l \in Labels, p \in {1, 2} } \cup
  { [O("again") EXCEPT !.s = n, !.key = G.obj[n].key, !.start = G.obj[n].end, !.label = l] :
      n \in 1..Len(G.obj), l \in Labels }
Init == G = New /\ hist = <<>> /\ who = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Cmds :
             /\ G' = Ran(G, o, Result(o)) /\ hist' = Append(hist, o)
             /\ who' = [n \in DOMAIN Files(Result(o), o.label, o.passes) |-> Len(hist) + 1] @@ who
             /\ IF Gen /\ Len(hist') = Depth
                THEN PrintT("GEN|" \o ToJson([ops |-> [j \in 1..Depth |-> [f \in {"k", "via", "s", "key", "label", "passes"} |-> hist'[j][f]]]]))
                ELSE TRUE
Spec == Init /\ [][Next]_vars
Same(a, b) == a.key = b.key /\ a.start = b.start
\* a result never depends on the history
Reproducible == [][\A k \in DOMAIN G.memo : G'.memo[k] = G.memo[k]]_vars
\* every file holds what the last run that owns its name produced, and no two labels share a name
Owner == \A n \in DOMAIN G.dir : LET o == hist[who[n]] IN Leak \/ G.dir[n] = Files(G.memo[<<o.key, o.start>>], o.label, o.passes)[n]
Apart == \A l, m \in Labels : l # m =>
   DOMAIN Files(Engine("x", "0"), l, 1) \cap (DOMAIN Files(Engine("x", "0"), m, 1) \cup DOMAIN Files(Engine("x", "0"), m, 2)) = {}
=============================================================================
