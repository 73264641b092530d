----------------------------- MODULE ModelStore -----------------------------
(* Rate and energy models as objects that are built, given fitted           *)
(* parameters, combined, written to files and read back, by their own class *)
(* or by dispatch.                                                          *)
(* object  [k, f, p, kra, site]                                             *)
(*   k     lce / local_barrier / site_energy / composite_lce                *)
(*   f     what it was built from (an opaque token)                         *)
(*   p     the fitted parameters of an lce, "" when none were set           *)
(*   kra, site   a composite refers to other objects (0: none)              *)
(* file    [form, k, f, p, kra, site], kra/site being frozen objects        *)
(*   form  none      no such file                                           *)
(*         native    as written by to()                                     *)
(*         envelope  filetype, model_type and the model below it            *)
(*         bare      the fields of the model only                           *)
(*         moved     names a class that now lives in another module         *)
(*         unknown   names a class that does not exist                      *)
(*         foreign   another filetype                                       *)
(*         untyped   no model_type                                          *)
(*         wrongtype the model_type of another kind                         *)
(*         nosuch    a model_type nobody knows                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Frozen(k, f, p) == [k |-> k, f |-> f, p |-> p]
NoObj == Frozen("", "", "")
NoFile == [form |-> "none", k |-> "", f |-> "", p |-> "", kra |-> NoObj, site |-> NoObj]
New(names) == [obj |-> <<>>, file |-> [n \in names |-> NoFile]]
Obj(k, f, p, kra, site) == [k |-> k, f |-> f, p |-> p, kra |-> kra, site |-> site]
Freeze(o) == Frozen(o.k, o.f, o.p)
Sub(G, i) == IF i = 0 THEN NoObj ELSE Freeze(G.obj[i])

\* what an object means: all that may decide its answers
Word(x) == x.k \o "(" \o x.f \o "," \o x.p \o ")"
Key(G, i) ==
  LET o == G.obj[i] IN
  IF o.k = "composite_lce" THEN Word(o) \o "[" \o Word(Sub(G, o.kra)) \o "," \o Word(Sub(G, o.site)) \o "]"
  ELSE Word(o)

\* fitted parameters fit a model when nothing they say about themselves contradicts it
\*   r = [id, n, order, env]   number of coefficients, and the model (order, env) they were
\*   fitted for, "" when they do not say; cnt gives the number of features of a model
ParOk(cnt, o, r) == /\ r.n = cnt[o.f]
                    /\ (r.order = "" \/ r.order = o.f)
                    /\ (r.env = "" \/ r.env = o.f)

HasMark(x) == x.form \in {"native", "moved", "unknown"}
HasType(x) == x.form \in {"envelope", "foreign", "untyped", "wrongtype", "nosuch"} \/ (x.form = "native" /\ x.k = "composite_lce")
Alias(mt) == CASE mt = "local_cluster_expansion" -> "lce" [] mt = "" -> "composite_lce" [] OTHER -> mt
Kinds == {"lce", "local_barrier", "site_energy", "composite_lce"}

Saves(G, o) ==
  LET x == G.obj[o.s] IN
  x.k # "composite_lce" \/ /\ x.kra # 0 /\ G.obj[x.kra].p # ""
                           /\ (x.site # 0 /\ G.obj[x.site].k = "lce") => G.obj[x.site].p # ""
\* reading with the class `cls`
Reads(x, cls) ==
  /\ x.form # "none" /\ cls = x.k
  /\ IF HasType(x) THEN x.form \in {"native", "envelope"} ELSE cls # "composite_lce"
Dispatches(x, mt) ==
  IF x.form = "none" THEN FALSE
  ELSE IF HasType(x) THEN x.form \in {"native", "envelope"}
  ELSE IF HasMark(x) THEN x.form # "unknown"
  ELSE Alias(mt) = x.k
\* reading some payload with some other class is outside what kMCpy promises
Defined(x, o) ==
  CASE o.k = "load" -> o.cls = x.k \/ o.cls = "composite_lce" \/ (HasType(x) /\ o.cls \in {"local_barrier", "site_energy"})
    [] o.k = "dispatch" -> HasType(x) \/ HasMark(x) \/ x.form = "none" \/ Alias(o.cls) = x.k \/ Alias(o.cls) \notin Kinds
                           \/ Alias(o.cls) = "composite_lce"
    [] OTHER -> TRUE
Accepts(cnt, G, o) ==
  CASE o.k = "set" -> ParOk(cnt, G.obj[o.s], o.par)
    [] o.k \in {"save", "dict"} -> Saves(G, o)
    [] o.k = "load" -> Reads(G.file[o.f], o.cls)
    [] o.k = "dispatch" -> Dispatches(G.file[o.f], o.cls)
    [] OTHER -> TRUE
\* a loaded lce on its own has no fitted parameters; a loaded composite has its own submodels
Thaw(G, x) ==
  LET n == Len(G.obj) IN
  IF x.k # "composite_lce" THEN [G EXCEPT !.obj = Append(@, Obj(x.k, x.f, "", 0, 0))]
  ELSE LET parts == << Obj("lce", x.kra.f, x.kra.p, 0, 0) >> \o
                    (IF x.site = NoObj THEN <<>> ELSE << Obj(x.site.k, x.site.f, x.site.p, 0, 0) >>)
       IN  [G EXCEPT !.obj = (@ \o parts) \o << Obj(x.k, x.f, "", n + 1, IF x.site = NoObj THEN 0 ELSE n + 2) >>]
Image(G, i) ==
  LET o == G.obj[i] IN
  [form |-> "native", k |-> o.k, f |-> o.f, p |-> "", kra |-> Sub(G, o.kra), site |-> Sub(G, o.site)]
Op(cnt, G, o) ==
  IF ~Accepts(cnt, G, o) THEN G
  ELSE CASE o.k = "make" -> [G EXCEPT !.obj = Append(@, Obj(o.cls, o.tok, "", 0, 0))]
         [] o.k = "set" -> [G EXCEPT !.obj[o.s].p = o.par.id]
         [] o.k = "compose" -> [G EXCEPT !.obj = Append(@, Obj("composite_lce", o.tok, "", o.s, o.s2))]
         [] o.k = "save" -> [G EXCEPT !.file[o.f] = Image(G, o.s)]
         [] o.k = "dict" -> Thaw(G, Image(G, o.s))
         [] o.k = "edit" -> [G EXCEPT !.file[o.f].form = o.cls]
         [] o.k \in {"load", "dispatch"} -> Thaw(G, G.file[o.f])
         [] OTHER -> G
=============================================================================
