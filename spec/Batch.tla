------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* Processing a section in batches.                                        *)
(*                                                                         *)
(* Contribution: element i (from 0) is multiplied by first * ratio^i; a    *)
(* batch starts with the power its first element has in the whole section. *)
(* Verification: every element must be ratio times the one before it, also *)
(* across the batches, so that a batch starts with the last element of the *)
(* one before; the elements of a batch are combined with random factors    *)
(* (Schwartz-Zippel, here: for all factors).                               *)
(* For all sections up to MaxLen over the field and all batch sizes both   *)
(* are the same as for the whole section.                                  *)
(***************************************************************************)
EXTENDS Algebra, GF, TLC

CONSTANTS MaxLen, MaxBatch, Values

VARIABLES sec, size, ratio, first, pos, out, carried, ok, naive
vars == <<sec, size, ratio, first, pos, out, carried, ok, naive>>
Seqs(n) == [1..n -> Values]
Init == /\ sec \in UNION {Seqs(n) : n \in 1..MaxLen} /\ size \in 1..MaxBatch /\ ratio \in {2, 3} /\ first \in {1, 3}
        /\ pos = 0 /\ out = <<>> /\ carried = <<>> /\ ok = TRUE /\ naive = TRUE

Least(a, b) == IF a < b THEN a ELSE b
\* the combination of neighbours holds for all factors iff every neighbour relation holds
Linked(s) == \A i \in 1..(Len(s) - 1) : s[i + 1] = FMul(ratio, s[i])
OneBatch ==
    LET n == Least(size, Len(sec) - pos)
        b == SubSeq(sec, pos + 1, pos + n)
        start == FMul(first, FPow(ratio, pos))
    IN /\ pos < Len(sec)
       /\ out' = out \o [i \in 1..n |-> FMul(b[i], FMul(start, FPow(ratio, i - 1)))]
       /\ ok' = (ok /\ Linked(carried \o b))
       /\ naive' = (naive /\ Linked(b))
       /\ carried' = <<b[n]>> /\ pos' = pos + n /\ UNCHANGED <<sec, size, ratio, first>>
Next == OneBatch

Done == pos = Len(sec)
SameOutput == Done => out = [i \in 1..Len(sec) |-> FMul(sec[i], FMul(first, FPow(ratio, i - 1)))]
SameVerdict == Done => (ok <=> Linked(sec))
\* without the carried element exactly the relations across batches are lost
NaiveLoses == Done => (naive <=> \A i \in 1..(Len(sec) - 1) : (i % size = 0) \/ sec[i + 1] = FMul(ratio, sec[i]))
=============================================================================
