------------------------------ MODULE MCConfig ------------------------------
(* All short histories over one field of each kind and two files.           *)
EXTENDS Config, TLC, Json
CONSTANTS Depth, Gen
VARIABLES G, hist
vars == <<G, hist>>
F(n, tok, c) == [n |-> n, tok |-> tok, c |-> c]
O(k) == [k |-> k, given |-> <<>>, a |-> 0, b |-> 0, f |-> "f", fmt |-> "yaml", sec |-> "", type |-> "", loader |-> FALSE, secs |-> <<>>]
Objs == 1..Len(G.obj)
Givens == { <<F("temperature", "400.0", 1)>>, <<F("structure_file", "\"x.cif\"", 0)>>,
            <<F("supercell_shape", "[2, 1, 1]", 3), F("kmc_passes", "5", 1)>> }
Bads == { <<F("temperature", "-1.0", -1)>>, <<F("colour", "1", 0)>> }
Cmds ==
  { [O("new") EXCEPT !.given = g] : g \in Givens \cup Bads } \cup
  { [O("mix") EXCEPT !.a = x, !.b = y, !.given = g] : x \in Objs, y \in Objs \cup {0}, g \in { <<F("temperature", "500.0", 1)>> } } \cup
  { [O(k) EXCEPT !.a = x, !.given = g] : k \in {"system", "runtime"}, x \in Objs, g \in { <<F("temperature", "400.0", 1)>>, <<F("model_file", "\"m.json\"", 0)>> } } \cup
  { [O("dict") EXCEPT !.a = x, !.loader = l] : x \in Objs, l \in BOOLEAN } \cup
  { [O("save") EXCEPT !.a = x, !.loader = l, !.sec = s, !.type = IF s = "" THEN "" ELSE "default"] : x \in Objs, l \in {TRUE}, s \in {"", "kmc", "other"} } \cup
  { [O("save") EXCEPT !.a = x, !.f = "g", !.fmt = "json"] : x \in Objs } \cup
  { [O("load") EXCEPT !.sec = s] : s \in {"", "kmc"} } \cup { [O("load") EXCEPT !.f = "g", !.fmt = "json"] } \cup
  { O("damage") } \cup
  { [O("write") EXCEPT !.secs = << [name |-> "kmc", plain |-> p, type |-> "fast", tasks |->
       <<[type |-> "fast", given |-> <<F("temperature", "400.0", 1)>>]>> \o
       (IF p THEN <<>> ELSE <<[type |-> "default", given |-> <<F("temperature", "500.0", 1)>>]>>)] >>] : p \in BOOLEAN } \cup
  { [O("write") EXCEPT !.given = <<F("temperature", "400.0", 1)>>] } \cup
  { [O("load") EXCEPT !.sec = "kmc", !.type = "fast"] } \cup
  { [O(k) EXCEPT !.a = x] : k \in {"assign", "dictpoke"}, x \in Objs }
Init == G = New({"f", "g"}) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Cmds :
             /\ G' = Op(G, o) /\ hist' = Append(hist, o)
             /\ IF Gen /\ Len(hist') = Depth THEN PrintT("GEN|" \o ToJson([ops |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
\* configurations never change once made, and only hold valid values
Immutable == [][\A k \in 1..Len(G.obj) : G'.obj[k] = G.obj[k]]_vars
NeverInvalid == \A k \in 1..Len(G.obj) : G.obj[k].temperature # "-1.0" /\ DOMAIN G.obj[k] = Fields
Last == hist'[Len(hist')]
\* saving with the loader fields and loading the same place gives an equal configuration
RoundTrip == [][(Len(hist) > 0 /\ Last.k = "load" /\ hist[Len(hist)].k = "save" /\ hist[Len(hist)].loader
                 /\ hist[Len(hist)].f = Last.f /\ hist[Len(hist)].sec = Last.sec /\ Len(G'.obj) > Len(G.obj))
                => G'.obj[Len(G'.obj)] = G.obj[hist[Len(hist)].a]]_vars
\* an unreadable file is only ever replaced as a whole, by a save that asks for it
JunkStays == [][\A f \in {"f", "g"} : (G.file[f].junk /\ ~G'.file[f].junk) => (Last.k = "write" \/ (Last.k = "save" /\ Last.sec = ""))]_vars
OtherFields == [][(Len(G'.obj) > Len(G.obj) /\ Last.k \in {"system", "runtime"}) =>
                  \A n \in Fields \ Given(Last.given) : G'.obj[Len(G'.obj)][n] = G.obj[Last.a][n]]_vars
=============================================================================
