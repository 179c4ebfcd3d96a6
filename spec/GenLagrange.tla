----------------------------- MODULE GenLagrange -----------------------------
(***************************************************************************)
(* Vectors for the conversion to the Lagrange basis: inputs of every shape *)
(* and size with the inverse transform as the expected result.             *)
(***************************************************************************)
EXTENDS Algebra, Bn254, Json, TLC

CONSTANT FIDFT(_)
Seed == EnvStr("ZK_SEED", "1")
Out == EnvStr("ZK_OUT", "/dev/null")
Deep == EnvStr("ZK_DEEP", "0") = "1"
V(s) == BHashScalar(Seed \o "/lagrange/" \o s)

Sizes(g) == IF g = "g1" THEN (IF Deep THEN {2^k : k \in 1..12} ELSE {2^k : k \in 1..9}) ELSE (IF Deep THEN {2^k : k \in 1..10} ELSE {2^k : k \in 1..7})
Kinds == {"powers", "random", "zeros", "ones", "sparse", "first", "last", "unit", "halves", "repeated", "opposite", "lagrange"}
At(kind, n, i) ==
    CASE kind = "random" -> V(ToString(i))
      [] kind = "zeros" -> FZero
      [] kind = "ones" -> FOne
      [] kind = "sparse" -> IF i % 3 = 0 THEN V(ToString(i)) ELSE FZero
      [] kind = "first" -> IF i = 1 THEN FOne ELSE FZero
      [] kind = "last" -> IF i = n THEN FOne ELSE FZero
      [] kind = "unit" -> IF i = n \div 2 + 1 THEN V("u") ELSE FZero
      [] kind = "halves" -> V(ToString(i % (n \div 2)))                      \* equal elements meet in the butterflies
      [] kind = "repeated" -> V("r")
      [] kind = "opposite" -> IF i <= n \div 2 THEN V(ToString(i)) ELSE FNeg(V(ToString(i - n \div 2)))
\* "lagrange": the transform of this input is a unit vector
Vector(kind, n) == IF kind = "powers" THEN FGeom(FOne, V("tau"), n)
                   ELSE IF kind = "lagrange" THEN FGeom(V("c"), FPow(FOmega(n), 1), n)
                   ELSE [i \in 1..n |-> At(kind, n, i)]

\* larger ones with inputs of two kinds only
Larger(g) == IF g = "g1" THEN {2^k : k \in IF Deep THEN 13..15 ELSE 10..12} ELSE {2^k : k \in IF Deep THEN 11..13 ELSE 8..10}
Cases == UNION {{[g |-> g, n |-> n, kind |-> k] : n \in Sizes(g), k \in Kinds} \cup {[g |-> g, n |-> n, kind |-> k] : n \in Larger(g), k \in {"powers", "random"}} : g \in {"g1", "g2"}}
VARIABLES case, done
Init == case \in Cases /\ done = FALSE
Bytes(g, v) == IF g = "g1" THEN G1C(v) ELSE G2C(v)
Emit(c) == LET v == Vector(c.kind, c.n)
               w == FIDFT(v)
           IN /\ Assert(IF c.n > 64 THEN TRUE ELSE w = IDFT(v), <<"transforms differ", c>>)
              /\ Assert(IF c.kind # "lagrange" \/ c.n > 64 THEN TRUE ELSE Cardinality({i \in 1..c.n : w[i] # FZero}) = 1, <<"no unit vector", c>>)
              /\ EmitLine(Out, ToString(c), ToJson([g |-> c.g, n |-> c.n, kind |-> c.kind, in |-> Bytes(c.g, v), out |-> Bytes(c.g, w)]))
Next == ~done /\ Emit(case) /\ done' = TRUE /\ UNCHANGED case
=============================================================================
