-------------------------------- MODULE Fft ---------------------------------
(***************************************************************************)
(* The conversion to the Lagrange basis as its workers do it: butterflies  *)
(* of decreasing span (decimation in frequency with the inverse root), the *)
(* two halves of a block in parallel once the block's butterflies are      *)
(* done, then the swaps of the bit reversal and the division by n, each in *)
(* any order.  In every interleaving the result is the inverse transform.  *)
(* The first butterflies are divided among workers only above a threshold, *)
(* which is the same as any order of the butterflies of a block.           *)
(***************************************************************************)
EXTENDS Algebra, GF, TLC

CONSTANT Sizes

Inputs(n) == {[i \in 1..n |-> IF i = j THEN 1 ELSE 0] : j \in 1..n}                   \* a basis: the transform is linear
             \cup {[i \in 1..n |-> FPow(3, i - 1)], [i \in 1..n |-> (i * i + 1) % GFQ], [i \in 1..n |-> 0]}

VARIABLES input, a, todo, phase
vars == <<input, a, todo, phase>>
n == Len(input)

\* butterflies <<first index, span, number in the block>> of the block of size 2*span that starts at index lo (0-based)
Block(lo, span) == {<<lo, span, k>> : k \in 0..(span - 1)}
Init == /\ input \in UNION {Inputs(m) : m \in Sizes}
        /\ a = input /\ todo = (IF n = 1 THEN {} ELSE Block(0, n \div 2)) /\ phase = "butterflies"

Butterfly(b) ==
    LET lo == b[1]  span == b[2]  i == lo + b[3] + 1  j == i + span
        w == FPow(FInv(FOmega(n)), b[3] * (n \div (2 * span)))   \* the block's root, inverted
        rest == todo \ {b}
        last == ~\E k \in 0..(span - 1) : <<lo, span, k>> \in rest
        half == span \div 2
    IN /\ phase = "butterflies" /\ b \in todo
       /\ a' = [a EXCEPT ![i] = FAdd(a[i], a[j]), ![j] = FMul(FSub(a[i], a[j]), w)]
       /\ todo' = IF last /\ half > 0 THEN rest \cup Block(lo, half) \cup Block(lo + span, half) ELSE rest
       /\ UNCHANGED <<input, phase>>
StartSwaps == /\ phase = "butterflies" /\ todo = {} /\ phase' = "swaps"
              /\ todo' = {i \in 1..n : Reversed(i - 1, Log2(n)) + 1 > i}
              /\ UNCHANGED <<input, a>>
Swap(i) == LET j == Reversed(i - 1, Log2(n)) + 1
           IN /\ phase = "swaps" /\ i \in todo /\ a' = [a EXCEPT ![i] = a[j], ![j] = a[i]] /\ todo' = todo \ {i} /\ UNCHANGED <<input, phase>>
StartScale == phase = "swaps" /\ todo = {} /\ phase' = "scale" /\ todo' = 1..n /\ UNCHANGED <<input, a>>
Scale(i) == /\ phase = "scale" /\ i \in todo /\ a' = [a EXCEPT ![i] = FMul(@, FInv(FOfInt(n)))] /\ todo' = todo \ {i} /\ UNCHANGED <<input, phase>>
End == phase = "scale" /\ todo = {} /\ phase' = "end" /\ UNCHANGED <<input, a, todo>>
\* swaps and divisions touch disjoint places; one order of them stands for all
Least == CHOOSE i \in todo : \A j \in todo : i <= j
Next == \/ \E b \in {x \in todo : phase = "butterflies"} : Butterfly(b)
        \/ StartSwaps \/ StartScale \/ End
        \/ (phase = "swaps" /\ todo # {} /\ (IF n <= 4 THEN \E i \in todo : Swap(i) ELSE Swap(Least)))
        \/ (phase = "scale" /\ todo # {} /\ (IF n <= 4 THEN \E i \in todo : Scale(i) ELSE Scale(Least)))

IsInverseTransform == phase = "end" => a = IDFT(input)
\* and for powers of tau this is the Lagrange basis
IsLagrange == (phase = "end" /\ n <= 4 /\ input[1] = 1 /\ input = [i \in 1..n |-> FPow(3, i - 1)]) => \A i \in 1..n : a[i] = LagrangeAt(n, i - 1, 3)
=============================================================================
