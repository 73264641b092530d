----------------------------- MODULE ParamStore -----------------------------
(* Fitted parameters, histories of fits and the files that keep them.       *)
(* Records are opaque tokens covering every field.                          *)
(*   G.rec   << token >>                     parameter objects              *)
(*   G.his   << <<token, ...>> >>            history objects                *)
(*   G.file  name -> [kind, v]   kind none / rec / his / list / junk        *)
(* A fit of some data (key) for a model returns a record, writes it to the  *)
(* parameter file and appends it to the history file.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoFile == [kind |-> "none", v |-> <<>>]
New(names) == [rec |-> <<>>, his |-> <<>>, file |-> [n \in names |-> NoFile]]
IsHis(x) == x.kind \in {"his", "list"}
Rec(t) == [kind |-> "rec", v |-> <<t>>]
His(s) == [kind |-> "his", v |-> s]

Accepts(G, o) ==
  CASE o.k = "load" -> G.file[o.f].kind = "rec"
    [] o.k = "hload" -> IsHis(G.file[o.f])
    \* coefficients for another number of features are refused; a history that cannot be read is never replaced
    [] o.k = "fit" -> o.fits /\ (o.h = "" \/ G.file[o.h].kind = "none" \/ IsHis(G.file[o.h]))
    [] OTHER -> TRUE
Op(G, o) ==
  IF ~Accepts(G, o) THEN G
  ELSE CASE o.k = "new" -> [G EXCEPT !.rec = Append(@, o.tok)]
         [] o.k = "dict" -> [G EXCEPT !.rec = Append(@, G.rec[o.s])]
         [] o.k = "save" -> [G EXCEPT !.file[o.f] = Rec(G.rec[o.s])]
         [] o.k = "load" -> [G EXCEPT !.rec = Append(@, G.file[o.f].v[1])]
         [] o.k = "hnew" -> [G EXCEPT !.his = Append(@, <<>>)]
         [] o.k = "append" -> [G EXCEPT !.his[o.s2] = Append(@, G.rec[o.s])]
         [] o.k = "hdict" -> [G EXCEPT !.his = Append(@, G.his[o.s2])]
         [] o.k = "hsave" -> [G EXCEPT !.file[o.f] = His(G.his[o.s2])]
         [] o.k = "hload" -> [G EXCEPT !.his = Append(@, G.file[o.f].v)]
         [] o.k = "list" -> [G EXCEPT !.file[o.f] = [kind |-> "list", v |-> G.his[o.s2]]]
         [] o.k = "junk" -> [G EXCEPT !.file[o.f] = [kind |-> "junk", v |-> <<>>]]
         [] o.k = "fit" ->
              LET A == [G EXCEPT !.rec = Append(@, o.tok)]
                  B == IF o.f = "" THEN A ELSE [A EXCEPT !.file[o.f] = Rec(o.tok)]
              IN  IF o.h = "" THEN B ELSE [B EXCEPT !.file[o.h] = His(Append(G.file[o.h].v, o.tok))]
         [] OTHER -> G
=============================================================================
