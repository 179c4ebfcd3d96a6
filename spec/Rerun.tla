------------------------------- MODULE Rerun --------------------------------
(***************************************************************************)
(* A command whose outputs may exist already: left by an earlier command   *)
(* (longer, shorter or as long as what will be written), or by the command *)
(* itself when it was killed.  It writes its outputs item by item; it may  *)
(* be killed at any point and repeated.                                    *)
(*   truncates   creating an output empties it                             *)
(*   reuses      an output that exists (or has the right length) isn't made *)
(*               again                                                     *)
(*   keeps       inputs aren't written to                                  *)
(* A command that truncates and doesn't reuse ends with the same outputs   *)
(* whatever there was; the others are recognized by the situations emitted.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Bn254

CONSTANTS Items, MaxKills
Out == EnvStr("ZK_OUT", "/dev/null")
Outs == {"first", "second"}
Order == <<"first", "second">>
Want(o) == [i \in 1..Items |-> <<o, i>>]
Old(o, n) == [i \in 1..n |-> <<"old", i>>]

VARIABLES truncates, reuses, file, at, item, kills, status, history
vars == <<truncates, reuses, file, at, item, kills, status, history>>

\* what is there before: nothing, a shorter or a longer file of another command, or one as long
Before == {"nothing", "shorter", "longer", "equal"}
Init == /\ truncates \in BOOLEAN /\ reuses \in {"no", "existing", "full"}
        /\ \E b \in [Outs -> Before] :
             /\ file = [o \in Outs |-> CASE b[o] = "nothing" -> <<>> [] b[o] = "shorter" -> Old(o, 1) [] b[o] = "longer" -> Old(o, Items + 1) [] b[o] = "equal" -> Old(o, Items)]
             /\ history = <<[kind |-> "before", first |-> b["first"], second |-> b["second"]]>>
        /\ at = 1 /\ item = 0 /\ kills = 0 /\ status = "running"

O == Order[at]
Put(f, i, x) == IF i <= Len(f) THEN [f EXCEPT ![i] = x] ELSE Append(f, x)
Skip == \/ reuses = "existing" /\ file[O] # <<>>
        \/ reuses = "full" /\ Len(file[O]) = Items
Step == /\ status = "running"
        /\ IF item = 0
           THEN /\ file' = IF truncates /\ ~Skip THEN [file EXCEPT ![O] = <<>>] ELSE file
                /\ item' = IF Skip THEN Items + 1 ELSE 1
                /\ UNCHANGED <<at, status>>
           ELSE IF item <= Items THEN file' = [file EXCEPT ![O] = Put(@, item, <<O, item>>)] /\ item' = item + 1 /\ UNCHANGED <<at, status>>
           ELSE IF at < Len(Order) THEN at' = at + 1 /\ item' = 0 /\ UNCHANGED <<file, status>>
           ELSE status' = "ok" /\ UNCHANGED <<file, at, item>>
        /\ UNCHANGED <<truncates, reuses, kills, history>>
\* killed at any point, and repeated
Kill == /\ status = "running" /\ kills < MaxKills /\ kills' = kills + 1
        /\ history' = Append(history, [kind |-> "killed", first |-> ToString(at), second |-> ToString(item)])
        /\ at' = 1 /\ item' = 0 /\ UNCHANGED <<truncates, reuses, file, status>>
Next == Step \/ Kill

Complete == \A o \in Outs : file[o] = Want(o)
Good == truncates /\ reuses = "no"
Repeatable == (status = "ok" /\ Good) => Complete
\* the situations that show another command, the shortest ones
Reveals == (status = "ok" /\ ~Complete /\ kills <= 1)
    => LET kind == IF kills = 1 THEN "killed" ELSE "left"
       IN EmitLine(Out, kind \o ToString(history[1]) , ToJson([kind |-> kind, first |-> history[1].first, second |-> history[1].second]))
=============================================================================
