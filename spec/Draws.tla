------------------------------- MODULE Draws --------------------------------
(***************************************************************************)
(* Drawing the random values of a command (secrets and blindings of a      *)
(* contribution, weights of a verification) from a generator that may fail.*)
(* A failed draw leaves the value as it was: zero, known to everyone.      *)
(* The command looks at the errors of the draws in checked, and may try    *)
(* again after an error (retries).  A command that looks at all of them    *)
(* never completes with a value that isn't random; the failures by which a *)
(* command that misses some is recognized are emitted and are those the    *)
(* real commands are run with.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Bn254

CONSTANT Values
Out == EnvStr("ZK_OUT", "/dev/null")

VARIABLES checked, retries, drawn, down, status, reads, faults
vars == <<checked, retries, drawn, down, status, reads, faults>>

Init == /\ checked \in SUBSET (1..Values) /\ retries \in BOOLEAN
        /\ drawn = <<>> /\ down = FALSE /\ status = "running" /\ reads = 0 /\ faults = <<>>

At == Len(drawn) + 1
\* what a read does: succeed, fail once, fail from now on
Read(how) ==
    /\ status = "running" /\ At <= Values
    /\ how \in (IF down THEN {"still"} ELSE {"random", "once", "sticky"})
    /\ Len(faults) = 1 => how \in {"random", "still"}            \* one failure shows everything
    /\ reads' = reads + 1 /\ down' = (down \/ how = "sticky")
    /\ faults' = IF how \in {"once", "sticky"} THEN Append(faults, <<reads + 1, how>>) ELSE faults
    /\ IF how = "random" THEN drawn' = Append(drawn, "random") /\ UNCHANGED status
       ELSE IF At \notin checked THEN drawn' = Append(drawn, "zero") /\ UNCHANGED status
       ELSE IF retries /\ how = "once" THEN UNCHANGED <<drawn, status>>
       ELSE status' = "failed" /\ UNCHANGED drawn
    /\ UNCHANGED <<checked, retries>>
Finish == status = "running" /\ At > Values /\ status' = "ok" /\ UNCHANGED <<checked, retries, drawn, down, reads, faults>>
Next == (\E how \in {"random", "once", "sticky", "still"} : Read(how)) \/ Finish

AllRandom == \A i \in DOMAIN drawn : drawn[i] = "random"
Careful == checked = 1..Values
SuccessIsRandom == (status = "ok" /\ Careful) => AllRandom
\* a generator that is down for good leaves no way to complete
DownFails == (status = "ok" /\ Careful) => ~down
\* one that completes has made at least as many successful reads as it needs values
Enough == (status = "ok" /\ Careful) => reads - Len(faults) >= Values
\* the single failures that show a careless command
Reveals == (status = "ok" /\ ~AllRandom) => EmitLine(Out, ToString(faults), ToJson([read |-> faults[1][1], mode |-> faults[1][2]]))
=============================================================================
