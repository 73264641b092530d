------------------------------ MODULE Scaffold ------------------------------
(* A directory tree in which input templates are laid out, next to the      *)
(* user's own files.  An entry is nothing, a directory, a user's file with  *)
(* a text, or an input file that means a configuration.                     *)
EXTENDS Config

None == [kind |-> "none", tok |-> "", val |-> Default]
Dir == [None EXCEPT !.kind = "dir"]
UserFile(tok) == [None EXCEPT !.kind = "user", !.tok = tok]
Input(v) == [None EXCEPT !.kind = "input", !.val = v]

\* what the template says: the defaults, with places for the three files and a site mapping
Blanks == << [n |-> "structure_file", tok |-> "\"path/to/structure.cif\""], [n |-> "event_file", tok |-> "\"path/to/event.json\""],
             [n |-> "model_file", tok |-> "\"path/to/model.json\""], [n |-> "site_mapping", tok |-> "{\"Li\": [\"Li\", \"X\"]}"] >>
Template == Over(Default, Blanks)

\* up[p]: the set of the directories above p
IsFile(e) == e.kind \in {"user", "input"}
Reach(S, up, p) == \A d \in up[p] : ~IsFile(S[d])
Laid(S, up, p, e) == [x \in DOMAIN S |-> IF x = p THEN e ELSE IF x \in up[p] THEN Dir ELSE S[x]]
Gone(S, up, p) == [x \in DOMAIN S |-> IF x = p \/ p \in up[x] THEN None ELSE S[x]]

Accepts2(S, up, o) ==
  CASE o.k = "init" -> S[o.p].kind # "dir" /\ Reach(S, up, o.p) /\ (S[o.p].kind = "none" \/ o.force)
    [] o.k = "put" -> S[o.p].kind # "dir" /\ Reach(S, up, o.p)
    [] o.k \in {"edit", "drop", "load", "start"} -> S[o.p].kind = "input"
    [] o.k = "args" -> AllGood(o.given)
    [] OTHER -> TRUE
\* what a simulation is set up with: what the input file says, or the defaults with the arguments given
Setup(S, o) == IF o.k = "args" THEN Over(Default, o.given) ELSE S[o.p].val
Tree(S, up, o) ==
  IF ~Accepts2(S, up, o) THEN S
  ELSE CASE o.k = "init" -> Laid(S, up, o.p, Input(Template))
         [] o.k = "put" -> Laid(S, up, o.p, UserFile(o.tok))
         [] o.k = "rm" -> Gone(S, up, o.p)
         \* an edited entry changes that field only; a removed one means its default
         [] o.k = "edit" -> [S EXCEPT ![o.p] = Input(Over(@.val, o.given))]
         [] o.k = "drop" -> [S EXCEPT ![o.p] = Input([@.val EXCEPT ![o.field] = Default[o.field]])]
         [] OTHER -> S
=============================================================================
