------------------------------ MODULE EventLib ------------------------------
(* The event library as an object with a history: events are added, the     *)
(* dependency table is generated or cleared, index metadata is attached,    *)
(* the library is written and read back.  Sites are zero based.             *)
(*   ev = [f, t, env]; G.meta = index of the attached site order (0: none)  *)
(*   orders[m] = number of active sites of order m                          *)
EXTENDS Integers, Sequences, FiniteSets

Sites(e) == {e.f, e.t} \cup { e.env[k] : k \in 1..Len(e.env) }
\* events whose rate can change when event i is executed (zero based)
Needed(ev, i) == { j \in 0..(Len(ev) - 1) : {ev[i + 1].f, ev[i + 1].t} \cap Sites(ev[j + 1]) # {} }
Involving(ev, s) == { j \in 0..(Len(ev) - 1) : s \in Sites(ev[j + 1]) }
InRange(ev, n) == \A k \in 1..Len(ev) : \A s \in Sites(ev[k]) : s >= 0 /\ s < n

Nothing == [ev |-> <<>>, meta |-> 0, deps |-> "none"]
NoFile == [ev |-> <<>>, meta |-> 0, deps |-> "absent"]
New == [lib |-> Nothing, file |-> NoFile]

\* deps: "none", "current" (generated for these events) or "old" (events were added since)
Accepts(orders, G, o) ==
  CASE o.k = "meta" -> InRange(G.lib.ev, orders[o.m])
    [] o.k = "check" -> G.lib.meta = o.m /\ InRange(G.lib.ev, orders[o.m])
    [] o.k = "save" -> G.lib.meta # 0
    [] o.k = "load" -> G.file.deps # "absent" /\ InRange(G.file.ev, orders[G.file.meta])
    [] o.k = "loadmin" -> G.file.deps # "absent" /\ InRange(G.file.ev, orders[G.file.meta])
    [] o.k \in {"legacy", "nometa"} -> FALSE
    [] OTHER -> TRUE

Read(f) == [f EXCEPT !.deps = IF f.deps = "none" /\ f.ev # <<>> THEN "current" ELSE f.deps]
Op(orders, G, o) ==
  IF ~Accepts(orders, G, o) THEN G
  ELSE CASE o.k = "add" -> [G EXCEPT !.lib.ev = Append(@, o.e), !.lib.deps = IF @ = "none" THEN "none" ELSE "old"]
         [] o.k = "gen" -> [G EXCEPT !.lib.deps = "current"]
         [] o.k = "clear" -> [G EXCEPT !.lib.deps = "none"]
         [] o.k = "meta" -> [G EXCEPT !.lib.meta = o.m]
         [] o.k = "save" -> [G EXCEPT !.file = G.lib]
         [] o.k = "load" -> [G EXCEPT !.lib = Read(G.file)]
         [] o.k = "loadmin" -> [G EXCEPT !.lib = Read([G.file EXCEPT !.deps = "none"])]
         [] OTHER -> G
=============================================================================
