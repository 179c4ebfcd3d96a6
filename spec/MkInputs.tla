------------------------------ MODULE MkInputs ------------------------------
(* Writes the files of Inputs.tla that the scenarios in ZK_IN ask for.     *)
EXTENDS Inputs, Json

Scenarios == ndJsonDeserialize(EnvStr("ZK_IN", ""))
Out == EnvStr("ZK_OUT", "/dev/null")

VARIABLES at, done
Init == /\ at \in {<<i, j>> \in (1..Len(Scenarios)) \X (1..200) : j <= Len(Scenarios[i].steps) /\ IsInput(Scenarios[i].steps[j])}
        /\ done = FALSE
Asked == Scenarios[at[1]].steps[at[2]]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED at
        /\ EmitLine(Out, ToString(at), ToJson([scn |-> at[1], line |-> at[2], bytes |-> IF IsSparse(Asked) THEN "" ELSE MadeBytes(Asked), again |-> IF Asked.op \in {"mk1", "mk2"} THEN Repeated(Asked) ELSE "",
                                            pieces |-> IF IsSparse(Asked) THEN <<MadePieces(Asked)>> ELSE <<>>]))
=============================================================================
