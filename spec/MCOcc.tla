------------------------------- MODULE MCOcc --------------------------------
(* All short histories over two-site vectors; printed when Gen.             *)
EXTENDS Occ, Json
CONSTANTS Depth, Gen, Break
VARIABLES S, hist
vars == <<S, hist>>
O(k) == [k |-> k, s |-> 1, b |-> "", v |-> <<>>, I |-> <<>>]
Objs == 1..Len(S)
Wide(a, b) == Basis(a).vals \subseteq Basis(b).vals \/ Basis(a).cls # Basis(b).cls
Flat(o, I) == \A k \in 1..Len(I) : o.v[I[k]] \in {Basis(o.b).match, Basis(o.b).mis}
Starts == { <<"occ", <<1, 0>> >>, <<"cheb", <<0, 1>> >>, <<"cheb3", <<2, 0>> >>, <<"spin", <<-1, 1>> >>, <<"spin", <<0, 1>> >>, <<"cheb", <<1, 99>> >> }
Cmds ==
  { [O("new") EXCEPT !.b = x[1], !.v = x[2]] : x \in Starts } \cup
  { [O("set") EXCEPT !.s = s, !.I = p[1], !.v = p[2]] : s \in Objs, p \in { <<<<1>>, <<1>>>>, <<<<2, 1>>, <<1, 2>>>>, <<<<1>>, <<99>>>>, <<<<1, 2>>, <<0, 3>>>> } } \cup
  { [O(k) EXCEPT !.s = s, !.I = I] : k \in {"flip", "flipin"}, s \in Objs, I \in { <<1>>, <<2, 1>>, <<1, 1>> } } \cup
  { [O("copy") EXCEPT !.s = s] : s \in Objs } \cup
  { [O("pick") EXCEPT !.s = s, !.I = <<2, 1>>] : s \in Objs } \cup
  { [O("conv") EXCEPT !.s = s, !.b = b] : s \in Objs, b \in {"occ", "cheb", "cheb3", "spin"} }
Sane(o) == CASE o.k \in {"flip", "flipin"} -> Flat(S[o.s], o.I)
             [] o.k = "conv" -> Wide(S[o.s].b, o.b)
             [] OTHER -> TRUE
Do(o) == IF Break = "store" /\ o.k = "set" THEN [S EXCEPT ![o.s].v = Sets(@, o.I, o.v)] ELSE Op(S, o)
Init == S = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in { c \in Cmds : Sane(c) } :
             /\ S' = Do(o) /\ hist' = Append(hist, o)
             /\ IF Gen /\ Len(hist') = Depth /\ S' # <<>> THEN PrintT("GEN|" \o ToJson([ops |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
Valid == \A k \in Objs : Good(S[k].b, S[k].v)
\* only set and flipin touch a vector, and only the one named
Last == hist'[Len(hist')]
Apart == [][\A k \in 1..Len(S) : (Last.k \notin {"set", "flipin"} \/ Last.s # k) => S'[k] = S[k]]_vars
Copies == [][Last.k = "copy" => Same(S'[Last.s], S'[Len(S')])]_vars
\* conversions keep which sites match, and going back restores vectors of two states
Converted == [][Last.k = "conv" => Alike(S[Last.s], S'[Len(S')])]_vars
Back == \A k \in Objs : \A b \in {"occ", "cheb", "spin"} :
          Cardinality(Basis(S[k].b).vals) = 2 => Change(b, S[k].b, Change(S[k].b, b, S[k].v)) = S[k].v
Twice == \A k \in Objs : \A n \in 1..Len(S[k].v) : Flat(S[k], <<n>>) => Flips(S[k].b, S[k].v, <<n, n>>) = S[k].v
Counted == \A k \in Objs : Good(S[k].b, S[k].v) => \A n \in 1..Len(S[k].v) : \E x \in Basis(S[k].b).vals : \E j \in 1..Len(Where(S[k], x)) : Where(S[k], x)[j] = n
\* every pair of states of a site is told apart by the first function, and rows are distinct
Told == \A n \in 2..5 : \A a, b \in 0..(n - 1) : a # b => SiteFun(n, a, 1) # SiteFun(n, b, 1)
=============================================================================
