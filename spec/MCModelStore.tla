---------------------------- MODULE MCModelStore ----------------------------
(* All short histories of models, fitted parameters and model files; printed *)
(* for replay when Gen.  `base` starts histories from a prepared situation.  *)
EXTENDS ModelStore, Json
CONSTANTS Depth, Gen, Break
VARIABLES G, hist, ghost, pars
vars == <<G, hist, ghost, pars>>

Cnt == [A |-> 2, B |-> 2, C |-> 3]
P0 == [id |-> "", n |-> 0, order |-> "", env |-> "", tok |-> "A", extra |-> 0]
O(k) == [k |-> k, s |-> 1, s2 |-> 0, f |-> "f", cls |-> "", tok |-> "", par |-> P0]
Objs(k) == { i \in 1..Len(G.obj) : G.obj[i].k = k }
Par(tok, extra, order, env) ==
  [id |-> "p" \o ToString(Len(hist)), n |-> Cnt[tok] + extra, order |-> order, env |-> env, tok |-> tok, extra |-> extra]
Prepared ==
  { << [O("make") EXCEPT !.cls = "lce", !.tok = "A"], [O("set") EXCEPT !.par = [P0 EXCEPT !.id = "p", !.n = 2, !.order = "A", !.env = "A"]],
       [O("make") EXCEPT !.cls = c, !.tok = "B"] >> : c \in {"lce", "local_barrier", "site_energy"} }
Forms(k) ==
  CASE k = "lce" -> {"bare", "moved", "unknown"}
    [] k = "composite_lce" -> {"envelope", "foreign", "untyped", "wrongtype", "nosuch"}
    [] OTHER -> {"bare", "moved", "unknown", "envelope", "foreign", "untyped", "wrongtype", "nosuch"}
Cmds ==
  { [O("set") EXCEPT !.s = s, !.par = Par(G.obj[s].f, x[1], x[2], x[3])] : s \in Objs("lce"),
      x \in { <<0, "", "">>, <<0, "B", "B">>, <<0, "A", "B">>, <<1, "A", "A">> } } \cup
  { [O("compose") EXCEPT !.s = s, !.s2 = x, !.tok = "m"] : s \in Objs("lce"), x \in Objs("lce") \cup Objs("site_energy") \cup {0} } \cup
  { [O("save") EXCEPT !.s = s] : s \in 1..Len(G.obj) } \cup
  { [O("dict") EXCEPT !.s = s] : s \in 1..Len(G.obj) } \cup
  (IF G.file["f"].form = "native" THEN { [O("edit") EXCEPT !.cls = c] : c \in Forms(G.file["f"].k) } ELSE {}) \cup
  { o \in { [O("load") EXCEPT !.cls = c] : c \in Kinds } \cup { [O("dispatch") EXCEPT !.cls = c] : c \in {"", "lce", "local_barrier"} } :
      /\ Defined(G.file["f"], o) /\ G.file["f"].form # "none"
      /\ ~(o.k = "load" /\ o.cls = "site_energy" /\ G.file["f"].form = "foreign") }
RECURSIVE Play(_, _)
Play(g, ops) == IF ops = <<>> THEN g ELSE Play(Op(Cnt, g, Head(ops)), Tail(ops))
Init == \E b \in Prepared : /\ hist = b /\ G = Play(New({"f"}), b) /\ ghost = "" /\ pars = {}
Do(o) == LET H == Op(Cnt, G, o) IN
         IF Break = "params" /\ o.k \in {"load", "dispatch"} /\ Len(H.obj) > Len(G.obj)
         THEN [H EXCEPT !.obj[Len(G.obj) + 1].p = ""] ELSE H
Next == /\ Len(hist) < Depth + 3
        /\ \E o \in Cmds :
             /\ G' = Do(o) /\ hist' = Append(hist, o)
             /\ ghost' = IF o.k = "save" /\ Accepts(Cnt, G, o) THEN Key(G, o.s) ELSE ghost
             /\ pars' = IF o.k = "set" /\ Accepts(Cnt, G, o) THEN pars \cup { <<o.par.id, G.obj[o.s].f, o.par.order, o.par.env>> } ELSE pars
             /\ IF Gen /\ Len(hist') = Depth + 3 /\ o.k \in {"load", "dispatch", "dict", "set"} THEN PrintT("GEN|" \o ToJson([ops |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
Last == hist'[Len(hist')]
New1 == Len(G'.obj) > Len(G.obj)
\* what is read back means what was saved (an lce on its own is saved without its parameters)
Faithful == [][Last.k \in {"load", "dispatch"} /\ New1 =>
               LET n == Len(G'.obj) IN
               IF G'.obj[n].k = "lce" THEN G'.obj[n].f = G.file["f"].f /\ G'.obj[n].p = "" ELSE Key(G', n) = ghost]_vars
\* only setting parameters changes what an object means, and only for objects that use that lce
Uses(i, s) == i = s \/ G.obj[i].kra = s \/ G.obj[i].site = s
Kept == [][\A i \in 1..Len(G.obj) : (Last.k # "set" \/ ~Uses(i, Last.s)) => Key(G', i) = Key(G, i)]_vars
\* no parameters in use were ever meant for another model
Bound == \A x \in pars : (x[3] \in {"", x[2]}) /\ (x[4] \in {"", x[2]})
\* a file of one kind never becomes a model of another
Typed == [][Last.k \in {"load", "dispatch"} /\ New1 => G'.obj[Len(G'.obj)].k = G.file["f"].k]_vars
=============================================================================
