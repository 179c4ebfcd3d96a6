------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* The commands and their files.  An argument of a command is an input, an *)
(* output or a name that others are made of; some files have fixed names.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Names == {"p1n", "p1c", "p1v", "p1vt", "p1t", "p2n", "p2np", "p2c", "p2v", "key", "keys", "sol"}

\* arguments by position: what each of them means
Signature(c) ==
    CASE c = "p1n"  -> <<"power", "out">>
      [] c = "p1c"  -> <<"in", "out">>
      [] c = "p1v"  -> <<"in">>
      [] c = "p1vt" -> <<"in", "origin">>
      [] c = "p1t"  -> <<"in", "out", "original", "reduced">>
      [] c = "p2n"  -> <<"in", "r1cs", "out">>
      [] c = "p2np" -> <<"in", "parts", "out", "constraints", "r1c", "batch">>
      [] c = "p2c"  -> <<"in", "out">>
      [] c = "p2v"  -> <<"in", "origin">>
      [] c = "key"  -> <<"in">>
      [] c = "keys" -> <<"in", "session">>
      [] c = "sol"  -> <<"session">>

\* the files a command reads: an argument, or a name in the working directory (with S for the session, P for the parts)
PartFiles == {"P.r1cs.E1.save", "P.r1cs.E11.save", "P.r1cs.E2.save", "P.r1cs.E3.save", "P.r1cs.E4.save", "P.r1cs.Cons"}
Inputs(c) ==
    CASE c = "p1n"  -> {}
      [] c \in {"p1c", "p1v", "p2c"} -> {"in"}
      [] c = "p1t"  -> {"in"}
      [] c \in {"p1vt", "p2v"} -> {"in", "origin"}
      [] c = "p2n"  -> {"in", "r1cs"}
      [] c = "p2np" -> {"in"} \cup PartFiles
      [] c \in {"key", "keys"} -> {"in", "evals"}
      [] c = "sol"  -> {"S.vk.save"}

\* the files a command writes
SplitFiles == {"S.pk.E.save", "S.pk.A.save", "S.pk.B1.save", "S.pk.Z.save", "S.pk.K.save", "S.pk.B2.save", "S.pk.CommitmentKey.save", "S.vk.save"}
Outputs(c) ==
    CASE c \in {"p1n", "p1c", "p1t", "p2c"} -> {"out"}
      [] c \in {"p1v", "p1vt", "p2v"} -> {}
      [] c \in {"p2n", "p2np"} -> {"out", "srs.lag", "evals"}
      [] c = "key"  -> {"pk", "vk"}
      [] c = "keys" -> SplitFiles
      [] c = "sol"  -> {"S.sol"}
\* output names that are arguments, the others are fixed
Argument(slot) == slot \in {"in", "out", "origin", "r1cs"}
=============================================================================
