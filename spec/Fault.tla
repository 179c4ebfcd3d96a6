------------------------------- MODULE Fault --------------------------------
(***************************************************************************)
(* Writing an output through a buffer to a device that may fail.           *)
(*                                                                         *)
(* A command appends Items items to a buffer of Size items; a full buffer  *)
(* is written to the device, and so is what is left of it at the end.      *)
(* Each write to the device may fail: it then takes a part of the data at  *)
(* most.  A failure can be for good (a full disk) or for once.             *)
(* The command looks at the errors of the points in checked:               *)
(*   "append"  an append that had to write the buffer                      *)
(*   "flush"   the final write                                             *)
(* A buffer that failed once refuses everything from then on if Sticky;    *)
(* without a sticky buffer every append has to be checked.                 *)
(* A command that checks all points never succeeds with an incomplete      *)
(* output; one that misses a point does so for the failures emitted, which *)
(* are therefore those the real commands are run with.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Bn254

CONSTANTS Items, Size
Out == EnvStr("ZK_OUT", "/dev/null")
Points == {"append", "flush"}
Faults == {"once", "sticky", "short"}

VARIABLES checked,   \* the points whose errors are looked at
          sticky,    \* the buffer remembers failures
          item, buf, dev, err, calls, status, faults, full
vars == <<checked, sticky, item, buf, dev, err, calls, status, faults, full>>
All == [i \in 1..Items |-> i]

Init == /\ checked \in SUBSET Points /\ sticky \in BOOLEAN
        /\ item = 1 /\ buf = <<>> /\ dev = <<>> /\ err = FALSE /\ calls = 0 /\ status = "running" /\ faults = <<>> /\ full = FALSE

\* what a write of the buffer can do: <<device, error, fault>>
Outcomes == {<<dev \o buf, FALSE, "none">>}
            \cup {<<dev, TRUE, m>> : m \in {"once", "sticky"}}
            \cup {<<dev \o SubSeq(buf, 1, n), TRUE, "short">> : n \in 1..(Len(buf) - 1)}
Device == IF full THEN {<<dev, TRUE, "still">>} ELSE Outcomes

\* writing the buffer with one of the outcomes; afterwards the item x is appended
Write(point, rest, next) ==
    \E o \in (IF sticky /\ err THEN {<<dev, TRUE, "refused">>} ELSE Device) :
        /\ dev' = o[1] /\ err' = (err \/ o[2]) /\ full' = (full \/ o[3] = "sticky")
        /\ calls' = calls + 1
        /\ faults' = IF o[3] \in Faults THEN Append(faults, <<calls + 1, o[3]>>) ELSE faults
        /\ buf' = rest
        /\ status' = IF o[2] /\ point \in checked THEN "failed" ELSE next
Append1 == /\ status = "running" /\ item <= Items
           /\ IF Len(buf) < Size THEN buf' = Append(buf, item) /\ UNCHANGED <<dev, err, calls, status, faults, full>>
              ELSE Write("append", <<item>>, "running")
           /\ item' = item + 1 /\ UNCHANGED <<checked, sticky>>
Flush == status = "running" /\ item > Items /\ Write("flush", <<>>, "ok") /\ UNCHANGED <<checked, sticky, item>>
Next == Append1 \/ Flush

Complete == dev = All
\* with the errors of all points looked at, or of the last one only if the buffer remembers
Careful == checked = Points \/ (sticky /\ "flush" \in checked)
SuccessIsComplete == (status = "ok" /\ Careful) => Complete
FaultFails == (status = "ok" /\ Careful) => faults = <<>>
\* the failures that reveal a missing check: single ones suffice, but they must hit every call and be of both durations
Reveals == (status = "ok" /\ ~Complete /\ Len(faults) = 1)
              => EmitLine(Out, ToString(<<checked, sticky, faults>>), ToJson([missing |-> Points \ checked, remembers |-> sticky, call |-> faults[1][1], fault |-> faults[1][2], of |-> calls]))
\* every careless command is revealed by a single failure, checked after the run from what is emitted
=============================================================================
