------------------------------ MODULE Workspace ------------------------------
(***************************************************************************)
(* Files in a directory: names lead, directly or through links, to files.  *)
(* A command reads some files and creates others.  Creating truncates, so  *)
(* a command must find out before whether what it creates is one of its    *)
(* inputs under any name.  Every way of naming an input by an output is    *)
(* explored, and each is emitted for the real commands.                    *)
(***************************************************************************)
EXTENDS Commands, Json, Bn254

Out == EnvStr("ZK_OUT", "/dev/null")

\* how the output's name comes to lead to the input's file
\*   same: the same name   dotted, absolute, through: another spelling of it
\*   symlink, chain: a link to it   hardlink   back: the input is named through a link to the output
\*   none: no clash, the command must succeed    stale: the output exists and is another file
Kinds == {"same", "dotted", "absolute", "through", "symlink", "chain", "hardlink", "back"}
\* "work" is any other file a command creates, which the replay finds by watching it
Made(c) == Outputs(c) \cup {"work"}
Spellings == {"same", "dotted", "absolute", "through"}

\* an alias by spelling needs one name for both; two fixed names differ
Possible(c, o, i, k) == /\ o \in Made(c) /\ i \in Inputs(c)
                        /\ (~Argument(o) /\ ~Argument(i)) => k \notin Spellings
                        /\ (k = "back") => Argument(i)
                        /\ (i = "P.r1cs.Cons") => k \in {"symlink", "hardlink"}
Aliases == {<<c, o, i, k>> \in Names \X (UNION {Made(c) : c \in Names}) \X (UNION {Inputs(c) : c \in Names}) \X Kinds : Possible(c, o, i, k)}
Plain == {<<c, "", "", k>> : c \in Names, k \in {"none", "stale"}}
\* two outputs that are one file can't both be complete
OutOut == {<<c, o, p, "twice">> : c \in {"p2n", "p2np"}, o \in {"out"}, p \in {"srs.lag", "evals"}}

(***************************************************************************)
(* The directory: node of every slot of the command; contents of nodes     *)
(***************************************************************************)
NodeOf(a, slot) == IF slot = a[2] /\ a[4] \notin {"none", "stale"} THEN a[3] ELSE slot   \* the aliased output leads to the input's node
Slots(c) == Inputs(c) \cup Made(c)

VARIABLES alias, contents, todo, status, done
vars == <<alias, contents, todo, status, done>>
Init == /\ alias \in Aliases \cup Plain
        /\ contents = [s \in Inputs(alias[1]) |-> "input"] @@ [s \in Made(alias[1]) |-> IF alias[4] = "stale" THEN "old" ELSE "nothing"]
        /\ todo = Made(alias[1]) /\ status = "running" /\ done = FALSE

Clash(o) == \E i \in Inputs(alias[1]) : NodeOf(alias, o) = i
\* outputs are created one by one, in any order; each is checked before it is created
Create(o) == /\ status = "running" /\ o \in todo
             /\ IF Clash(o) THEN status' = "failed" /\ UNCHANGED <<contents, todo>>
                ELSE /\ contents' = [contents EXCEPT ![NodeOf(alias, o)] = "output"]
                     /\ todo' = todo \ {o} /\ UNCHANGED status
             /\ UNCHANGED <<alias, done>>
Finish == status = "running" /\ todo = {} /\ status' = "ok" /\ UNCHANGED <<alias, contents, todo, done>>
\* a command may fail for other reasons at any time
Fail == status = "running" /\ status' = "failed" /\ UNCHANGED <<alias, contents, todo, done>>
Emit == /\ status # "running" /\ ~done /\ done' = TRUE
        /\ EmitLine(Out, ToString(alias), ToJson([cmd |-> alias[1], out |-> alias[2], in |-> alias[3], kind |-> alias[4]]))
        /\ UNCHANGED <<alias, contents, todo, status>>
Next == (\E o \in todo : Create(o)) \/ Finish \/ Fail \/ Emit

InputsKept == \A i \in Inputs(alias[1]) : contents[i] = "input"
SuccessIsComplete == status = "ok" => \A o \in Made(alias[1]) : contents[NodeOf(alias, o)] = "output"
ClashFails == status = "ok" => alias[4] \in {"none", "stale"}
ASSUME \A a \in OutOut : EmitLine(Out, ToString(a), ToJson([cmd |-> a[1], out |-> a[2], in |-> a[3], kind |-> a[4]]))
=============================================================================
