------------------------------ MODULE Sampling ------------------------------
(* Property sampling: schedules, attachments, records, plans and runs.       *)
(*                                                                           *)
(* A table T = [gi, gt, off, atts, rows, offs, last] is the plan of a KMC      *)
(* object or a run's tracker (offs: fields off in each row).  gi/gt: global step/time interval (0 =    *)
(* none); off: disabled built-in fields; atts: attachments in order:         *)
(*   [uid, name, iv, tv, store, max, en, fail, handler, actat, act, last,    *)
(*    recs]          (iv, tv, max: 0 = not given; last: -1 = never sampled)  *)
(* A system G = [kmc, active, plan, trk, cnt, log, err]: kmc tells whether   *)
(* commands go to a KMC object (plan, and tracker while a run is active) or  *)
(* straight to a tracker; cnt[uid] counts the calls of a callback.           *)
EXTENDS Integers, Sequences, FiniteSets

Builtins == <<"msd", "jump_diffusivity", "tracer_diffusivity", "conductivity",
              "havens_ratio", "correlation_factor">>
IsBuiltin(n) == \E k \in 1..Len(Builtins) : Builtins[k] = n

EmptyTable == [gi |-> 0, gt |-> 0, off |-> {}, atts |-> <<>>, rows |-> <<>>, offs |-> <<>>, last |-> -1]
NoAct == [k |-> "none", name |-> "", iv |-> 0, tv |-> 0]

Due(step, time, iv, tv, last) ==
  \/ iv > 0 /\ step > 0 /\ step % iv = 0
  \/ tv > 0 /\ time - (IF last = -1 THEN 0 ELSE last) >= tv

Idx(T, name) ==
  LET S == { k \in 1..Len(T.atts) : T.atts[k].name = name } IN
  IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
IdxU(T, uid) ==
  LET S == { k \in 1..Len(T.atts) : T.atts[k].uid = uid } IN
  IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
Remove(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

---------------------------------------------------------------------------
(* Commands.  Ok says whether a table accepts a command, Cmd its effect.     *)
Ok(T, c) ==
  CASE c.k = "attach" -> c.bad = "" /\ Idx(T, c.name) = 0 /\ ~IsBuiltin(c.name)
    [] c.k = "detach" -> Idx(T, c.name) # 0
    [] c.k = "enable" -> IsBuiltin(c.name) \/ Idx(T, c.name) # 0
    [] c.k = "disable" -> IsBuiltin(c.name) \/ Idx(T, c.name) # 0
    [] c.k = "freq" -> c.bad = ""
    [] OTHER -> TRUE

NewAtt(c, uid) ==
  [uid |-> uid, name |-> c.name, iv |-> c.iv, tv |-> c.tv, store |-> c.store, max |-> c.max,
   en |-> c.en, fail |-> c.fail, handler |-> c.handler, actat |-> c.actat, act |-> c.act,
   last |-> -1, recs |-> <<>>]

SetEnabled(T, name, b) ==
  IF IsBuiltin(name) THEN [T EXCEPT !.off = IF b THEN @ \ {name} ELSE @ \cup {name}]
  ELSE [T EXCEPT !.atts[Idx(T, name)].en = b]

Cmd(T, c, uid) ==
  IF ~Ok(T, c) THEN T ELSE
  CASE c.k = "attach" -> [T EXCEPT !.atts = Append(@, NewAtt(c, uid))]
    [] c.k = "detach" -> [T EXCEPT !.atts = Remove(@, Idx(T, c.name))]
    [] c.k = "clear" -> [T EXCEPT !.atts = <<>>]
    [] c.k = "enable" -> SetEnabled(T, c.name, TRUE)
    [] c.k = "disable" -> SetEnabled(T, c.name, FALSE)
    [] c.k = "freq" -> [T EXCEPT !.gi = c.iv, !.gt = c.tv]
    [] OTHER -> T

Target(G) == IF G.kmc THEN G.plan ELSE G.trk
Accepts(G, c) == Ok(Target(G), c)

Do(G, c) ==
  IF ~Accepts(G, c) THEN G ELSE
  LET uid == Len(G.cnt) + 1
      G1 == IF c.k = "attach" THEN [G EXCEPT !.cnt = Append(@, 0)] ELSE G
      G2 == IF G.kmc THEN [G1 EXCEPT !.plan = Cmd(@, c, uid)] ELSE G1
  IN  IF ~G.kmc \/ G.active THEN [G2 EXCEPT !.trk = Cmd(@, c, uid)] ELSE G2

\* what a callback does while it runs: one of the commands above
Simple(a) == [k |-> a.k, name |-> a.name, iv |-> a.iv, tv |-> a.tv, bad |-> "", store |-> TRUE, max |-> 0,
              en |-> TRUE, fail |-> <<>>, handler |-> "none", actat |-> 0, act |-> NoAct]

---------------------------------------------------------------------------
(* One sampling point *)
Has(s, x) == \E k \in 1..Len(s) : s[k] = x
LastN(s, n) == IF n = 0 \/ Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

Call(G, i, step, time) ==
  LET a == G.trk.atts[i]
      n == G.cnt[a.uid] + 1
      G1 == [G EXCEPT !.cnt[a.uid] = n, !.log = Append(@, [name |-> a.name, step |-> step, time |-> time])]
      G2 == IF a.actat = n /\ a.act.k # "none" THEN Do(G1, Simple(a.act)) ELSE G1
      j == IdxU(G2.trk, a.uid)
      fails == Has(a.fail, n)
  IN  IF fails /\ a.handler # "continue" THEN [G2 EXCEPT !.err = "stopped"]
      ELSE IF j = 0 THEN G2
      ELSE LET G3 == [G2 EXCEPT !.trk.atts[j].last = time] IN
           IF fails \/ ~a.store THEN G3
           ELSE [G3 EXCEPT !.trk.atts[j].recs =
                   LastN(Append(@, [name |-> a.name, step |-> step, time |-> time, value |-> n]), a.max)]

RECURSIVE Visit(_, _, _, _, _)
Visit(G, uids, k, step, time) ==
  IF k > Len(uids) \/ G.err # "" THEN G
  ELSE LET i == IdxU(G.trk, uids[k]) IN
       IF i = 0 THEN Visit(G, uids, k + 1, step, time)
       ELSE LET a == G.trk.atts[i]
                iv == IF a.iv # 0 THEN a.iv ELSE G.trk.gi
                tv == IF a.tv # 0 THEN a.tv ELSE G.trk.gt
            IN  IF a.en /\ Due(step, time, iv, tv, a.last)
                THEN Visit(Call(G, i, step, time), uids, k + 1, step, time)
                ELSE Visit(G, uids, k + 1, step, time)

Sample(G, step, time) ==
  LET due == Due(step, time, G.trk.gi, G.trk.gt, G.trk.last)
      G1 == IF due THEN [G EXCEPT !.trk.rows = Append(@, time), !.trk.offs = Append(@, G.trk.off),
                                     !.trk.last = time] ELSE G
  IN  Visit(G1, [k \in 1..Len(G1.trk.atts) |-> G1.trk.atts[k].uid], 1, step, time)

---------------------------------------------------------------------------
(* A whole run: a new tracker from the plan, then one point per event.  The  *)
(* step handed to callbacks is the production event index.                   *)
FromPlan(plan, np) ==
  [plan EXCEPT
     !.gi = IF plan.gi = 0 /\ plan.gt = 0 THEN np ELSE plan.gi,
     !.rows = <<>>, !.offs = <<>>, !.last = -1,
     !.atts = [k \in 1..Len(plan.atts) |-> [plan.atts[k] EXCEPT !.last = -1, !.recs = <<>>]]]

RECURSIVE Points(_, _, _)
Points(G, times, j) ==
  IF j > Len(times) \/ G.err # "" THEN G ELSE Points(Sample(G, j, times[j]), times, j + 1)

RunAll(G, times, np) ==
  LET G1 == [G EXCEPT !.trk = FromPlan(G.plan, np), !.active = TRUE]
      G2 == Points(G1, times, 1)
  IN  [G2 EXCEPT !.active = FALSE]

Start(kmc) == [kmc |-> kmc, active |-> FALSE, plan |-> EmptyTable, trk |-> EmptyTable,
               cnt |-> <<>>, log |-> <<>>, err |-> ""]

\* any operation of a trace
Op(G0, o) ==
  LET G == [G0 EXCEPT !.log = <<>>] IN
  CASE o.k = "sample" -> Sample(G, o.step, o.time)
    [] o.k = "run" -> RunAll(G, o.times, o.np)
    [] OTHER -> Do(G, o)

Names(T) == [k \in 1..Len(T.atts) |-> T.atts[k].name]
Filter(T, b) == LET S == { k \in 1..Len(T.atts) : T.atts[k].en = b } IN { T.atts[k].name : k \in S }
=============================================================================
