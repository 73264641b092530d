----------------------------- MODULE StateStore -----------------------------
(* Simulation states as values: objects that are created, copied, advanced, *)
(* written to files and read back.  Times are opaque tokens (the exact      *)
(* binary value of a float); only an executed hop computes a new one.       *)
(*   c  the site order of the system (IndexMap)                             *)
(*   G.obj   << [occ, time, step] >>                                        *)
(*   G.file  [name -> [kind, occ, time, step]], kind in                     *)
(*           none / ckpt / bare (occupations only) / init / other           *)
EXTENDS IndexMap

NoFile == [kind |-> "none", occ |-> <<>>, time |-> "", step |-> 0]
New(names) == [obj |-> <<>>, file |-> [f \in names |-> NoFile]]

\* values given for all sites or only for the active ones
Fits(c, v) == Len(v) = NActive(c) \/ Len(v) = NFull(c)
Chosen(c, v) == IF Len(v) = NActive(c) THEN v ELSE Select(c, v)
\* values chosen block-wise: s lists primitive sites, every block has one value per cell
Cells1(shape) == (shape[1] * shape[2]) * shape[3]
BlockFits(v, shape, s) ==
  /\ Len(v) % Cells1(shape) = 0
  /\ \A k \in 1..Len(s) : s[k] >= 0 /\ s[k] < (Len(v) \div Cells1(shape))
Block(v, shape, s) ==
  LET n == Cells1(shape)
  IN  [k \in 1..(Len(s) * n) |-> v[(s[((k - 1) \div n) + 1] * n) + ((k - 1) % n) + 1]]

Accepts(c, G, o) ==
  LET f == G.file[o.f] IN
  CASE o.k \in {"load", "plain"} -> f.kind \in {"ckpt", "bare"}
    [] o.k = "order" -> f.kind \in {"ckpt", "bare", "init"} /\ Fits(c, f.occ)
    [] o.k = "block" -> f.kind \in {"ckpt", "bare"} \/ (f.kind = "init" /\ BlockFits(f.occ, o.shape, o.sel))
    [] o.k = "occs" -> Fits(c, o.occ)
    [] OTHER -> TRUE
Obj(occ, time, step) == [occ |-> occ, time |-> time, step |-> step]
Stamp(f, o) == IF f.kind = "ckpt" THEN [time |-> f.time, step |-> f.step] ELSE [time |-> o.time, step |-> o.step]
Add(G, x) == [G EXCEPT !.obj = Append(@, x)]
Op(c, G, o) ==
  IF ~Accepts(c, G, o) THEN G
  ELSE LET f == G.file[o.f]  st == Stamp(f, o) IN
       CASE o.k = "new" -> Add(G, Obj(o.occ, o.time, o.step))
         [] o.k \in {"copy", "dict", "json"} -> Add(G, G.obj[o.s])
         [] o.k = "save" -> [G EXCEPT !.file[o.f] = [kind |-> "ckpt", occ |-> G.obj[o.s].occ, time |-> G.obj[o.s].time, step |-> G.obj[o.s].step]]
         [] o.k = "write" -> [G EXCEPT !.file[o.f] = [kind |-> o.kind, occ |-> o.occ, time |-> o.time, step |-> o.step]]
         [] o.k \in {"load", "plain"} -> Add(G, Obj(f.occ, st.time, st.step))
         [] o.k = "order" -> Add(G, Obj(Chosen(c, f.occ), st.time, st.step))
         [] o.k = "block" -> Add(G, Obj(IF f.kind = "init" THEN Block(f.occ, o.shape, o.sel) ELSE f.occ, st.time, st.step))
         [] o.k = "occs" -> Add(G, Obj(Chosen(c, o.occ), o.time, o.step))
         \* a hop exchanges two sites (or writes their own codes) and advances the counters
         [] o.k = "hop" ->
              LET x == G.obj[o.s] IN
              [G EXCEPT !.obj[o.s] =
                 [occ |-> [x.occ EXCEPT ![o.a + 1] = IF o.codes = <<>> THEN x.occ[o.b + 1] ELSE o.codes[1],
                                        ![o.b + 1] = IF o.codes = <<>> THEN x.occ[o.a + 1] ELSE o.codes[2]],
                  time |-> IF x.time = o.time THEN o.now ELSE "unexpected", step |-> x.step + 1]]
         [] o.k = "poke" -> [G EXCEPT !.obj[o.s].occ[o.a + 1] = o.b]
         [] OTHER -> G    \* argpoke, dictpoke: the caller's own objects are not the state's
=============================================================================
