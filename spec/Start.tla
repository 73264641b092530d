-------------------------------- MODULE Start -------------------------------
(* Starting a simulation from its input files.                              *)
(* Events, state and structure are written at different times, possibly for *)
(* different structures, site mappings or supercells; they only belong      *)
(* together when they use the same site order.                              *)
(*   w = [c, hasmap, ev, st]                                                *)
(*   c       site order of the configuration (IndexMap case)                *)
(*   ev      [tagged, c, idx]  the order the event file was made for, and   *)
(*           all site indices its events mention                            *)
(*   st      [how, kind, occ, time, step, focc]: occupations in the         *)
(*           configuration and/or an initial-state file                     *)
EXTENDS IndexMap

Fits(c, v) == Len(v) = NActive(c) \/ Len(v) = NFull(c)
Chosen(c, v) == IF Len(v) = NActive(c) THEN v ELSE Select(c, v)

EventsOk(w) == /\ w.ev.tagged /\ Space(w.ev.c) = Space(w.c)
               /\ \A k \in 1..Len(w.ev.idx) : w.ev.idx[k] \in 0..(NActive(w.c) - 1)
\* occupations given in the configuration come before a file
UsesOcc(w) == w.st.how \in {"occ", "both"}
StateOk(w) ==
  CASE w.st.how = "none" -> FALSE
    [] UsesOcc(w) -> Fits(w.c, w.st.occ)
    [] OTHER -> w.st.kind \in {"ckpt", "bare", "init"} /\ Fits(w.c, w.st.focc)
Starts(w) == w.hasmap /\ NActive(w.c) > 0 /\ EventsOk(w) /\ StateOk(w)
Occ0(w) == Chosen(w.c, IF UsesOcc(w) THEN w.st.occ ELSE w.st.focc)
FromCkpt(w) == ~UsesOcc(w) /\ w.st.kind = "ckpt"
=============================================================================
