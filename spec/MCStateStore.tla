---------------------------- MODULE MCStateStore ----------------------------
(* All short histories of states and state files on a small system with one *)
(* fixed and two active primitive sites in two cells; printed for replay    *)
(* when Gen.                                                                 *)
EXTENDS StateStore, TLC, Json
CONSTANTS Depth, Gen
VARIABLES G, hist
vars == <<G, hist>>

Site(n) == [ sp |-> "A", allowed |-> [ k \in 1..n |-> "S" ], pos |-> <<0, 0, 0>> ]
C == [ prim |-> << Site(2), Site(1), Site(2) >>, shape |-> <<2, 1, 1>>,
       m |-> << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >> ]
Full == <<1, 0, 0, 0, 0, 1>>
Act == <<0, 1, 1, 0>>
O(k) == [k |-> k, s |-> 1, f |-> "f", occ |-> <<>>, time |-> "t0", now |-> "t0", step |-> 0, a |-> 0, b |-> 0,
         codes |-> <<>>, kind |-> "", shape |-> <<2, 1, 1>>, sel |-> <<>>]
Times == <<"t0", "t1", "t2", "t3", "t4", "t5", "t6">>
After(x) == Times[(CHOOSE k \in 1..6 : Times[k] = x) + 1]
Objs == 1..Len(G.obj)
Cmds ==
  { [O("new") EXCEPT !.occ = v, !.time = "t0", !.step = 3] : v \in {Act} } \cup
  { [O("occs") EXCEPT !.occ = v] : v \in {Act, Full, <<0, 1>>} } \cup
  { [O(k) EXCEPT !.s = s] : k \in {"copy", "dict", "save", "argpoke", "dictpoke"}, s \in Objs } \cup
  { [O("write") EXCEPT !.kind = "init", !.occ = Full, !.f = "g"], [O("write") EXCEPT !.kind = "bare", !.occ = Act, !.f = "g"] } \cup
  { [O(k) EXCEPT !.f = f, !.time = "t0", !.step = 7] : k \in {"load", "order"}, f \in {"f", "g"} } \cup
  { [O("block") EXCEPT !.f = "g", !.sel = v] : v \in { <<0, 2>>, <<3>> } } \cup
  { [O("poke") EXCEPT !.s = s, !.a = 2, !.b = 1] : s \in Objs } \cup
  { [O("hop") EXCEPT !.s = s, !.a = 0, !.b = 1, !.time = G.obj[s].time, !.now = After(G.obj[s].time)] : s \in Objs }
Init == G = New({"f", "g"}) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Cmds :
             /\ G' = Op(C, G, o) /\ hist' = Append(hist, o)
             /\ IF Gen /\ Len(hist') = Depth THEN PrintT("GEN|" \o ToJson([ops |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

Last == hist'[Len(hist')]
\* only hops and pokes change an existing object, and only the one they name
OthersKept == [][\A k \in 1..Len(G.obj) : (Last.k \notin {"hop", "poke"} \/ Last.s # k) => G'.obj[k] = G.obj[k]]_vars
FilesKept == [][\A f \in {"f", "g"} : (Last.k \notin {"save", "write"} \/ Last.f # f) => G'.file[f] = G.file[f]]_vars
\* what is read back is what was written
ReadBack == [][Last.k = "load" /\ G.file[Last.f].kind = "ckpt" =>
               LET x == G'.obj[Len(G'.obj)]  f == G.file[Last.f] IN x.occ = f.occ /\ x.time = f.time /\ x.step = f.step]_vars
Lengths == \A k \in 1..Len(G.obj) : Len(G.obj[k].occ) > 0
=============================================================================
