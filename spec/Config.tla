------------------------------- MODULE Config -------------------------------
(* Simulation configurations as immutable values with a file format.        *)
(* A configuration maps every field to a value token (its canonical JSON).  *)
(* A given field is [n |-> name, tok |-> token, c |-> class]; the class     *)
(* carries what validation depends on: the sign of a number, a dimension,   *)
(* the length of a shape, or 0/1 for well/ill formed structured values.     *)
EXTENDS Integers, Sequences, FiniteSets

Loader == {"structure_file", "model_file", "event_file", "initial_state_file"}
System == Loader \cup {"supercell_shape", "dimension", "mobile_ion_specie", "mobile_ion_charge",
                       "elementary_hop_distance", "model_type", "site_mapping",
                       "convert_to_primitive_cell", "initial_occupations"}
Runtime == {"temperature", "attempt_frequency", "equilibration_passes", "kmc_passes", "random_seed", "name",
            "property_sampling_interval", "property_sampling_time_interval", "builtin_property_enabled",
            "property_callbacks"}
Fields == System \cup Runtime
EmptyStr == "\"\""
Default == [n \in Fields |->
  CASE n \in {"structure_file", "model_file", "event_file"} -> EmptyStr
    [] n = "supercell_shape" -> "[1, 1, 1]"
    [] n = "dimension" -> "3"
    [] n = "mobile_ion_specie" -> "\"Li\""
    [] n \in {"mobile_ion_charge", "elementary_hop_distance"} -> "1.0"
    [] n = "model_type" -> "\"composite_lce\""
    [] n = "convert_to_primitive_cell" -> "false"
    [] n = "temperature" -> "300.0"
    [] n = "attempt_frequency" -> "10000000000000.0"
    [] n = "equilibration_passes" -> "1000"
    [] n = "kmc_passes" -> "10000"
    [] n = "name" -> "\"DefaultSimulation\""
    [] n = "builtin_property_enabled" -> "{}"
    [] n = "property_callbacks" -> "[]"
    [] OTHER -> "null"]

\* which single values are acceptable
Good(x) ==
  CASE x.n \in {"temperature", "attempt_frequency", "kmc_passes"} -> x.c > 0
    [] x.n = "equilibration_passes" -> x.c >= 0
    [] x.n = "dimension" -> x.c \in {1, 2, 3}
    [] x.n = "supercell_shape" -> x.c = 3
    [] x.n \in {"property_sampling_interval", "property_sampling_time_interval"} -> x.tok = "null" \/ x.c > 0
    [] x.n \in {"builtin_property_enabled", "property_callbacks"} -> x.c = 0
    [] OTHER -> TRUE
AllGood(given) == \A k \in 1..Len(given) : Good(given[k])
Given(given) == { given[k].n : k \in 1..Len(given) }
Known(given) == Given(given) \subseteq Fields
Val(given, n) == given[CHOOSE k \in 1..Len(given) : given[k].n = n].tok
Over(base, given) == [n \in Fields |-> IF n \in Given(given) THEN Val(given, n) ELSE base[n]]
\* fields of a as system part, of b as runtime part
Join(a, b) == [n \in Fields |-> IF n \in System THEN a[n] ELSE b[n]]

-----------------------------------------------------------------------------
(* Files: flat fields and named sections.  A section names the task type it *)
(* is read with and has fields per type, or (plain) just has the fields.    *)
(* ok: the fields make a configuration.  junk: somebody left a file there   *)
(* that is not readable.                                                    *)
NoFile == [there |-> FALSE, junk |-> FALSE, flat |-> FALSE, ok |-> FALSE, val |-> Default, sec |-> {}]
\* a section: [name, plain, type, tasks], a task: [type, ok, val]
Task(ty, ok, v) == [type |-> ty, ok |-> ok, val |-> v]
GivenOk(g) == Known(g) /\ AllGood(g) /\ g # <<>>
TaskOf(ty, g) == Task(ty, GivenOk(g), Over(Default, g))
Section(fl, s) == CHOOSE x \in fl.sec : x.name = s
HasSection(fl, s) == \E x \in fl.sec : x.name = s
Written(v, loader) == [n \in Fields |-> IF n \in Loader /\ ~loader THEN Default[n] ELSE v[n]]
IsYaml(o) == o.fmt \in {"yaml", "yml"}
Readable(o) == o.fmt \in {"json", "yaml", "yml"}

\* what a load looks at: the named section, else the flat fields, else the kmc section
Source(fl, o) ==
  IF o.sec # "" THEN (IF HasSection(fl, o.sec) THEN "section" ELSE "bad")
  ELSE IF fl.flat THEN (IF fl.sec = {} THEN "flat" ELSE "bad")
  ELSE IF HasSection(fl, "kmc") THEN "kmc" ELSE "bad"
\* the tasks a load may mean: at most one
Meant(x, ty) == IF x.plain THEN x.tasks ELSE { y \in x.tasks : y.type = IF ty = "" THEN x.type ELSE ty }
TypeOk(fl, s, ty) == \E y \in Meant(Section(fl, s), ty) : y.ok
ValueIn(fl, s, ty) == (CHOOSE y \in Meant(Section(fl, s), ty) : TRUE).val
\* a file somebody writes by hand
HandSection(x) == [name |-> x.name, plain |-> x.plain, type |-> x.type,
                   tasks |-> { TaskOf(x.tasks[k].type, x.tasks[k].given) : k \in 1..Len(x.tasks) }]
HandFile(o) == [there |-> TRUE, junk |-> FALSE, flat |-> o.given # <<>>, ok |-> GivenOk(o.given),
                val |-> Over(Default, o.given), sec |-> { HandSection(o.secs[k]) : k \in 1..Len(o.secs) }]

Accepts(G, o) ==
  LET fl == G.file[o.f] IN
  CASE o.k = "new" -> Known(o.given) /\ AllGood(o.given) /\ o.given # <<>>
    [] o.k = "mix" -> Known(o.given) /\ AllGood(o.given) /\ (o.a # 0 \/ o.b # 0 \/ o.given # <<>>)
    [] o.k = "system" -> Given(o.given) \subseteq System /\ AllGood(o.given)
    [] o.k = "runtime" -> Given(o.given) \subseteq Runtime /\ AllGood(o.given)
    [] o.k = "save" -> Readable(o) /\ (o.sec = "" \/ (IsYaml(o) /\ ~fl.junk))
    [] o.k = "load" -> /\ Readable(o) /\ fl.there /\ ~fl.junk
                       /\ LET src == Source(fl, o)
                          IN  CASE src = "section" -> TypeOk(fl, o.sec, o.type)
                                [] src = "kmc" -> TypeOk(fl, "kmc", o.type)
                                [] src = "flat" -> fl.ok
                                [] OTHER -> FALSE
    [] o.k = "assign" -> FALSE
    [] OTHER -> TRUE

Add(G, v) == [G EXCEPT !.obj = Append(@, v)]
Base(G, k) == IF k = 0 THEN Default ELSE G.obj[k]
Op(G, o) ==
  IF ~Accepts(G, o) THEN G
  ELSE LET fl == G.file[o.f] IN
       CASE o.k = "new" -> Add(G, Over(Default, o.given))
         [] o.k = "mix" -> Add(G, Over(Join(Base(G, o.a), Base(G, o.b)), o.given))
         [] o.k \in {"system", "runtime"} -> Add(G, Over(G.obj[o.a], o.given))
         [] o.k = "dict" -> Add(G, Written(G.obj[o.a], o.loader))
         [] o.k = "save" ->
              IF o.sec = "" THEN [G EXCEPT !.file[o.f] = [there |-> TRUE, junk |-> FALSE, flat |-> TRUE, ok |-> TRUE, val |-> Written(G.obj[o.a], o.loader), sec |-> {}]]
              ELSE [G EXCEPT !.file[o.f] =
                      [fl EXCEPT !.there = TRUE,
                                 !.sec = { x \in @ : x.name # o.sec } \cup
                                         { [name |-> o.sec, plain |-> FALSE, type |-> o.type,
                                            tasks |-> { Task(o.type, TRUE, Written(G.obj[o.a], o.loader)) }] }]]
         [] o.k = "write" -> [G EXCEPT !.file[o.f] = HandFile(o)]
         [] o.k = "damage" -> [G EXCEPT !.file[o.f] = [NoFile EXCEPT !.there = TRUE, !.junk = TRUE]]
         [] o.k = "load" -> Add(G, CASE Source(fl, o) = "section" -> ValueIn(fl, o.sec, o.type)
                                     [] Source(fl, o) = "kmc" -> ValueIn(fl, "kmc", o.type)
                                     [] OTHER -> fl.val)
         [] OTHER -> G    \* argpoke, dictpoke: nobody else's objects are part of a configuration
New(names) == [obj |-> <<>>, file |-> [f \in names |-> NoFile]]
=============================================================================
