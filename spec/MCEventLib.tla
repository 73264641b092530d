----------------------------- MODULE MCEventLib -----------------------------
(* All short histories of an event library over a small pool of events, and *)
(* (Gen) each complete history printed for replay into the real class.      *)
EXTENDS EventLib, TLC, Json
CONSTANTS Depth, Gen
VARIABLES G, hist
vars == <<G, hist>>

Orders == <<4, 6, 6>>
E1 == [f |-> 0, t |-> 1, env |-> <<2>>]
E2 == [f |-> 2, t |-> 3, env |-> <<>>]
E3 == [f |-> 3, t |-> 5, env |-> <<4>>]     \* outside order 1
O(k) == [k |-> k, e |-> E1, m |-> 0]
Cmds == { [O("add") EXCEPT !.e = e] : e \in {E1, E2, E3} } \cup
        { [O("meta") EXCEPT !.m = m] : m \in {1, 2} } \cup { [O("check") EXCEPT !.m = m] : m \in 1..3 } \cup
        { O(k) : k \in {"gen", "clear", "save", "load", "loadmin"} }
Init == G = New /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Cmds :
             /\ o.k = "gen" => G.lib.ev # <<>>
             /\ o.k \in {"save", "load", "loadmin"} => G.lib.ev # <<>> \/ G.file.ev # <<>>
             /\ o.k = "meta" => Accepts(Orders, G, o)
             /\ G' = Op(Orders, G, o) /\ hist' = Append(hist, o)
             /\ IF Gen /\ Len(hist') = Depth THEN PrintT("GEN|" \o ToJson([orders |-> Orders, ops |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

Ev == G.lib.ev
\* the table covers what changes, and covering is symmetric enough to be complete
SelfCovered == \A i \in 0..(Len(Ev) - 1) : i \in Needed(Ev, i)
Complete == \A i, j \in 0..(Len(Ev) - 1) :
              (j \notin Needed(Ev, i)) => ({Ev[i + 1].f, Ev[i + 1].t} \cap Sites(Ev[j + 1]) = {})
Indexed == \A i \in 0..(Len(Ev) - 1) : \A s \in Sites(Ev[i + 1]) : i \in Involving(Ev, s)
\* nothing that reaches a file can be without metadata, and what is read back is what was written
FileHasMeta == G.file.deps # "absent" => G.file.meta # 0
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)].k
ReadBack == Last \in {"load", "loadmin"} /\ G.file.deps # "absent" /\ InRange(G.file.ev, Orders[G.file.meta])
            => G.lib.ev = G.file.ev /\ G.lib.meta = G.file.meta
=============================================================================
