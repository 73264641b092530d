----------------------------- MODULE MCScaffold -----------------------------
(* All short histories over a small tree: a file beside a directory with a  *)
(* file in it, and a path below a file.                                     *)
EXTENDS Scaffold, TLC, Json
CONSTANTS Depth, Gen, Break
VARIABLES S, hist
vars == <<S, hist>>
Paths == {"input_template.yaml", "a.yaml", "d", "d/b.yaml"}
Up == [p \in Paths |-> IF p = "d/b.yaml" THEN {"d"} ELSE {}]
O(k, p) == [k |-> k, p |-> p, how |-> "kmcpy", force |-> FALSE, tok |-> "", given |-> <<>>, field |-> ""]
Edits == { <<[n |-> "temperature", tok |-> "450.0"]>>, <<[n |-> "kmc_passes", tok |-> "7"], [n |-> "structure_file", tok |-> "\"x.cif\""]>> }
Cmds ==
  { [O("init", p) EXCEPT !.force = f, !.how = h] : p \in Paths, f \in BOOLEAN, h \in {"kmcpy", "call"} } \cup
  { [O("put", p) EXCEPT !.tok = "mine"] : p \in Paths \ {"input_template.yaml"} } \cup
  { O("rm", p) : p \in {"d", "a.yaml"} } \cup
  { [O("edit", p) EXCEPT !.given = g] : p \in {"a.yaml"}, g \in Edits } \cup
  { [O("drop", p) EXCEPT !.field = "temperature"] : p \in {"a.yaml"} } \cup { O("load", p) : p \in {"a.yaml"} }
Init == S = [p \in Paths |-> None] /\ hist = <<>>
\* deliberately wrong machines, which the properties below must reject
Ran(o) == CASE Break = "force" /\ o.k = "init" -> Tree(S, Up, [o EXCEPT !.force = TRUE])
            [] Break = "merge" /\ o.k = "init" /\ S[o.p].kind = "input" /\ o.force -> S
            [] OTHER -> Tree(S, Up, o)
Next == /\ Len(hist) < Depth
        /\ \E o \in Cmds :
             /\ S' = Ran(o) /\ hist' = Append(hist, o)
             /\ IF Gen /\ Len(hist') = Depth THEN PrintT("GEN|" \o ToJson([ops |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
Last == hist'[Len(hist')]
\* without force nothing that was there is changed
Kept == [][Last.k = "init" /\ ~Last.force => \A p \in Paths : S[p].kind # "none" => S'[p] = S[p]]_vars
\* with it, at most the one file asked for
OnlyAsked == [][Last.k = "init" => \A p \in Paths \ {Last.p} : S[p].kind # "none" => S'[p] = S[p]]_vars
\* a template is the defaults, whatever was there before
Fresh == [][Last.k = "init" /\ Accepts2(S, Up, Last) => S'[Last.p] = Input(Template)]_vars
OneField == [][Last.k = "edit" => \A n \in Fields \ Given(Last.given) : S'[Last.p].val[n] = S[Last.p].val[n]]_vars
Sound == \A p \in Paths : IsFile(S[p]) => \A x \in Paths : p \in Up[x] => S[x].kind = "none"
=============================================================================
