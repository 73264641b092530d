---------------------------- MODULE MCParamStore ----------------------------
(* All short histories of records, fits and files; printed when Gen.        *)
EXTENDS ParamStore, Json
CONSTANTS Depth, Gen, Break
VARIABLES G, hist
vars == <<G, hist>>
O(k) == [k |-> k, s |-> 1, s2 |-> 1, f |-> "", h |-> "", tok |-> "", key |-> "", fits |-> TRUE]
T == "t" \o ToString(Len(hist))
Recs == 1..Len(G.rec)
Hiss == 1..Len(G.his)
Cmds ==
  { [O("new") EXCEPT !.tok = T], O("hnew") } \cup
  { [O(k) EXCEPT !.s = Len(G.rec), !.f = "p"] : k \in IF Recs = {} THEN {} ELSE {"save", "dict"} } \cup
  { [O("append") EXCEPT !.s = s, !.s2 = h] : s \in Recs, h \in Hiss } \cup
  { [O(k) EXCEPT !.s2 = h, !.f = "h"] : k \in {"hsave", "hdict", "list"}, h \in Hiss } \cup
  { [O("load") EXCEPT !.f = "p"], [O("hload") EXCEPT !.f = "h"], [O("junk") EXCEPT !.f = "h"] } \cup
  { [O("fit") EXCEPT !.tok = T, !.key = "d1", !.f = f, !.h = h, !.fits = b] : f \in {"", "p"}, h \in {"", "h"}, b \in {TRUE, FALSE} }
\* failed fits that would leave a parameter file behind are not part of the model
Sane(o) == o.k = "fit" => (o.h # "" /\ G.file[o.h].kind = "junk" => o.f = "")
Do(o) == LET H == Op(G, o) IN
         IF Break = "restart" /\ o.k = "fit" /\ o.h # "" /\ IsHis(G.file[o.h]) /\ Len(G.file[o.h].v) > 1
         THEN [H EXCEPT !.file[o.h] = His(<<o.tok>>)] ELSE H
Init == G = New({"p", "h"}) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in { c \in Cmds : Sane(c) } :
             /\ G' = Do(o) /\ hist' = Append(hist, o)
             /\ IF Gen /\ Len(hist') = Depth THEN PrintT("GEN|" \o ToJson([ops |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
Last == hist'[Len(hist')]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* a fit only ever adds to a history
NeverLost == [][Last.k = "fit" => Prefix(G.file["h"].v, G'.file["h"].v)]_vars
Kept == [][/\ Prefix(G.rec, G'.rec)
           /\ \A k \in 1..Len(G.his) : (Last.k # "append" \/ Last.s2 # k) => G'.his[k] = G.his[k]]_vars
Latest == [][Last.k = "fit" /\ Len(G'.rec) > Len(G.rec) =>
             /\ Last.f # "" => G'.file[Last.f] = Rec(G'.rec[Len(G'.rec)])
             /\ Last.h # "" => G'.file[Last.h].v[Len(G'.file[Last.h].v)] = G'.rec[Len(G'.rec)]]_vars
Refused == [][Last.k = "fit" /\ ~Last.fits => G' = G]_vars
=============================================================================
