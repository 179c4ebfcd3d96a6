------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* The scalar field every other module computes in, as constant operators. *)
(* GF.tla provides a small prime field (exhaustive model checking), and    *)
(* Bn254.tla the real one (test generation and trace validation).          *)
(*                                                                         *)
(* A group element is represented by its discrete logarithm with respect   *)
(* to the generator of its group, so that the pairing is multiplication.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS FZero, FOne,
          FAdd(_, _), FSub(_, _), FMul(_, _), FInv(_),
          FPow(_, _),          \* natural exponents
          FOfInt(_),           \* of a natural number
          FOmega(_),           \* generator of the subgroup of order n, a power of 2
          FGeom(_, _, _),      \* <<first, first*ratio, ...>>
          FDot(_, _)           \* sum of products

FNeg(a) == FSub(FZero, a)
FDiv(a, b) == FMul(a, FInv(b))
FSum(s) == FDot(s, [i \in DOMAIN s |-> FOne])
Scaled(s, k) == [i \in DOMAIN s |-> FMul(s[i], k)]
Products(s, t) == [i \in DOMAIN s |-> FMul(s[i], t[i])]
Constantly(n, x) == [i \in 1..n |-> x]

\* index i (0-based) with its bits lower bits reversed
RECURSIVE Reversed(_, _)
Reversed(i, bits) == IF bits = 0 THEN 0 ELSE (i % 2) * 2^(bits - 1) + Reversed(i \div 2, bits - 1)

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

BitReversed(s) == LET b == Log2(Len(s)) IN [i \in DOMAIN s |-> s[Reversed(i - 1, b) + 1]]

\* the inverse discrete Fourier transform: the coefficients become the values' interpolation
\* IDFT(<<1, t, t^2, ...>>)[i+1] is the i-th Lagrange polynomial of the domain at t
IDFT(v) == LET n  == Len(v)
               wi == FInv(FOmega(n))
               ni == FInv(FOfInt(n))
           IN [i \in 1..n |-> FMul(ni, FDot(v, FGeom(FOne, FPow(wi, i - 1), n)))]

\* the definition of the Lagrange polynomial, to check the above against
LagrangeAt(n, i, t) ==
    LET w(j) == FPow(FOmega(n), j)
        term(j) == FDiv(FSub(t, w(j)), FSub(w(i), w(j)))
        RECURSIVE prod(_)
        prod(j) == IF j = n THEN FOne ELSE FMul(IF j = i THEN FOne ELSE term(j), prod(j + 1))
    IN prod(0)
=============================================================================
