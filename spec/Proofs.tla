------------------------------- MODULE Proofs -------------------------------
(***************************************************************************)
(* Proofs of knowledge of a contribution's secrets, common to both phases. *)
(* SP = HashToG2(S, SX, challenge; dst) is a group element whose logarithm *)
(* nobody knows, so x*SP is kept symbolically.                             *)
(***************************************************************************)
EXTENDS Algebra

CONSTANT NoHash       \* the challenge of the first contribution (empty)

SPof(s, sx, chal, dst) == [s |-> s, sx |-> sx, chal |-> chal, dst |-> dst]
KeyFor(s, sx, x, chal, dst) == [s |-> s, sx |-> sx, sp |-> SPof(s, sx, chal, dst), x |-> x]
Key(s, x, chal, dst) == KeyFor(s, FMul(s, x), x, chal, dst)

\* e(a, k.x * k.sp) = e(b, sp): points with unrelated logarithms are equal only at infinity
PairSame(a, b, k, sp) == IF k.sp = sp THEN FMul(a, k.x) = b ELSE FMul(a, k.x) = FZero /\ b = FZero

SecretOf(k) == FDiv(k.sx, k.s)
ProperKey(k, x, chal, dst) == k.s # FZero /\ x # FZero /\ k = Key(k.s, x, chal, dst)
=============================================================================
