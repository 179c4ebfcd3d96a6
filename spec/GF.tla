-------------------------------- MODULE GF ---------------------------------
(* The field of integers modulo the prime GFQ, for Algebra.tla.            *)
EXTENDS Integers, Sequences
CONSTANT GFQ

GFAdd(a, b) == (a + b) % GFQ
GFSub(a, b) == (a - b + GFQ) % GFQ
GFMul(a, b) == (a * b) % GFQ
GFInv(a) == IF a = 0 THEN 0 ELSE CHOOSE x \in 1..(GFQ - 1) : (a * x) % GFQ = 1
RECURSIVE GFPow(_, _)
GFPow(a, n) == IF n = 0 THEN 1 % GFQ ELSE IF n % 2 = 1 THEN GFMul(a, GFPow(a, n - 1)) ELSE GFPow(GFMul(a, a), n \div 2)
GFOfInt(n) == n % GFQ
GFOmega(n) == CHOOSE w \in 1..(GFQ - 1) : GFPow(w, n) = 1 /\ \A k \in 1..(n - 1) : GFPow(w, k) # 1
GFGeom(first, ratio, n) == [i \in 1..n |-> GFMul(first, GFPow(ratio, i - 1))]
RECURSIVE GFDotTo(_, _, _)
GFDotTo(a, b, n) == IF n = 0 THEN 0 ELSE GFAdd(GFDotTo(a, b, n - 1), GFMul(a[n], b[n]))
GFDot(a, b) == GFDotTo(a, b, Len(a))
GFElems == 0..(GFQ - 1)
=============================================================================
