------------------------------ MODULE MCGroth16 ------------------------------
(***************************************************************************)
(* The keys of the ceremony work: for every small circuit, every secret of *)
(* both phases and every assignment, a proof made with the extracted       *)
(* proving key (as gnark's prover makes it) satisfies the Groth16 equation *)
(* of the extracted verifying key if the assignment satisfies the circuit; *)
(* and the key elements are those of Groth16 at the product secrets.       *)
(***************************************************************************)
EXTENDS Circuit, GF, TLC

CONSTANTS Secrets, Shifts

NoHash1(r) == <<>>
EmptyHash == <<>>

GFNeg2 == GFSub(0, 2)
Circ(name) ==
    CASE name = "square" ->   \* 0: one, 1: x*x (public), 2: x
            [public |-> 2, wires |-> 3, constraints |-> 1, committed |-> <<>>, commitment |-> -1,
             A |-> <<<<>>, <<>>, <<<<0, 1>>>>>>, B |-> <<<<>>, <<>>, <<<<0, 1>>>>>>, C |-> <<<<>>, <<<<0, 1>>>>, <<>>>>]
      [] name = "cube" ->     \* y = x^3 + 2, 3: x^2, wire 4 unused
            [public |-> 2, wires |-> 5, constraints |-> 2, committed |-> <<>>, commitment |-> -1,
             A |-> <<<<>>, <<>>, <<<<0, 1>>>>, <<<<1, 1>>>>, <<>>>>,
             B |-> <<<<>>, <<>>, <<<<0, 1>>, <<1, 1>>>>, <<>>, <<>>>>,
             C |-> <<<<<<1, GFNeg2>>>>, <<<<1, 1>>>>, <<>>, <<<<0, 1>>>>, <<>>>>]
      [] name = "three" ->    \* three constraints over a domain of 4; a wire on all sides
            [public |-> 2, wires |-> 4, constraints |-> 3, committed |-> <<>>, commitment |-> -1,
             A |-> <<<<<<2, 1>>>>, <<<<1, 1>>>>, <<<<0, 1>>, <<2, 3>>>>, <<<<1, 2>>>>>>,
             B |-> <<<<<<0, 1>>, <<2, 1>>>>, <<<<1, 1>>>>, <<<<1, 1>>>>, <<>>>>,
             C |-> <<<<<<2, 1>>>>, <<>>, <<<<0, 1>>, <<2, 3>>>>, <<<<1, 0>>>>>>]

Field == 0..(GFQ - 1)
VARIABLES circ, f1, f2, tab, sec
vars == <<circ, f1, f2, tab, sec>>
c == Circ(circ)

Init == /\ circ \in {"square", "cube", "three"}
        /\ f1 = Initialize(2) /\ f2 = <<>> /\ tab = <<>> /\ sec = [tau |-> 1, alpha |-> 1, beta |-> 1, delta |-> 1, n |-> 0]
Sec1(t, a, b) == [tau |-> t, alpha |-> a, beta |-> b, sTau |-> 1, sAlpha |-> 1, sBeta |-> 1]
Contribute1 == /\ f2 = <<>> /\ sec.n < 2
               /\ \E t \in Secrets, a \in Shifts, b \in Shifts :
                    /\ f1' = [Contribute(f1, Sec1(t, a, b)) EXCEPT !.contribs = <<>>, !.n = 0]
                    /\ sec' = [sec EXCEPT !.tau = GFMul(@, t), !.alpha = GFMul(@, a), !.beta = GFMul(@, b), !.n = @ + 1]
               /\ UNCHANGED <<circ, f2, tab>>
Start2 == /\ f2 = <<>>
          /\ LET i == Initialize2(f1, c) IN f2' = i.f2 /\ tab' = i.ev
          /\ UNCHANGED <<circ, f1, sec>>
Contribute2nd == /\ f2 # <<>> /\ sec.delta = 1
                 /\ \E d \in Shifts : /\ f2' = [Contribute2(f2, [delta |-> d, s |-> 1]) EXCEPT !.contribs = <<>>, !.n = 0]
                                      /\ sec' = [sec EXCEPT !.delta = GFMul(@, d)]
                 /\ UNCHANGED <<circ, f1, tab>>
Next == Contribute1 \/ Start2 \/ Contribute2nd

(***************************************************************************)
(* gnark's prover and verifier                                             *)
(***************************************************************************)
Row(m, i, w) == FSum([k \in 1..c.wires |-> LET ts == SelectSeq(m[k], LAMBDA t : t[1] = i) IN FDot([q \in DOMAIN ts |-> ts[q][2]], [q \in DOMAIN ts |-> w[k]])])
Satisfies(w) == w[1] = 1 /\ \A i \in 0..(c.constraints - 1) : GFMul(Row(c.A, i, w), Row(c.B, i, w)) = Row(c.C, i, w)

\* coefficients of the polynomial with these values on the domain
Values(m, w) == [i \in 1..DomainOf(c) |-> IF i <= c.constraints THEN Row(m, i - 1, w) ELSE 0]
PolyMul(p, q) == [k \in 1..(Len(p) + Len(q) - 1) |->
                    FSum([i \in 1..Len(p) |-> IF k - i + 1 \in 1..Len(q) THEN GFMul(p[i], q[k - i + 1]) ELSE 0])]
\* quotient of a polynomial of 2n-1 coefficients by X^n - 1 (remainder zero for satisfied circuits)
Quotient(p, n) == [k \in 1..(n - 1) |-> p[k + n]]
Remainder(p, n) == [k \in 1..n |-> GFAdd(p[k], IF k + n <= Len(p) THEN p[k + n] ELSE 0)]
RECURSIVE Spread(_, _)
\* the points of the key for all wires: the filtered ones with zeros put back in
Spread(filtered, inf) == IF inf = <<>> THEN <<>>
                         ELSE IF Head(inf) THEN <<0>> \o Spread(filtered, Tail(inf)) ELSE <<Head(filtered)>> \o Spread(Tail(filtered), Tail(inf))
PubSum(vk, w) == LET ws == WiresOf(c, "public") IN FDot(vk.k, [i \in DOMAIN ws |-> w[ws[i] + 1]])

Proof(pk, w, r, s) ==
    LET n == pk.domain
        ia == IDFT(Values(c.A, w))
        ib == IDFT(Values(c.B, w))
        ic == IDFT(Values(c.C, w))
        ab == PolyMul(ia, ib)
        q == [k \in 1..(2*n - 1) |-> GFSub(ab[k], IF k <= n THEN ic[k] ELSE 0)]
        h == SubSeq(BitReversed(Append(Quotient(q, n), 0)), 1, n - 1)     \* in the order of the key
        ws == WiresOf(c, "private")
        ar == FSum(<<pk.alpha1, FDot(Spread(pk.a, pk.infA), w), GFMul(r, pk.delta1)>>)
        bs == FSum(<<pk.beta2, FDot(Spread(pk.b2, pk.infB), w), GFMul(s, pk.delta2)>>)
        bs1 == FSum(<<pk.beta1, FDot(Spread(pk.b, pk.infB), w), GFMul(s, pk.delta1)>>)
        krs == FSum(<<FDot(pk.k, [i \in DOMAIN ws |-> w[ws[i] + 1]]), FDot(pk.z, h), GFMul(s, ar), GFMul(r, bs1), GFSub(0, GFMul(GFMul(r, s), pk.delta1))>>)
    IN [ar |-> ar, bs |-> bs, krs |-> krs]
Verifies(vk, pf, w) == GFMul(pf.ar, pf.bs) = FSum(<<GFMul(vk.alpha1, vk.beta2), GFMul(PubSum(vk, w), vk.gamma2), GFMul(pf.krs, vk.delta2)>>)

Assignments == LET free == {w \in [1..c.wires -> Field] : w[1] = 1} IN {w \in free : Satisfies(w)}
Sample == CASE circ = "square" -> {<<1, 4, 2>>, <<1, 9, 3>>, <<1, 0, 0>>}
            [] circ = "cube" -> {<<1, GFAdd(8, 2), 2, 4, x>> : x \in {0, 5}} \cup {<<1, GFAdd(27 % GFQ, 2), 3, 9 % GFQ, 1>>}
            [] circ = "three" -> {w \in {<<1, y, x, z>> : x \in {1, 2}, y \in {0, 4, 9}, z \in {0, 4, 15}} : Satisfies(w)}

Extracted == f2 # <<>>
ProofsVerify ==
    Extracted => LET pk == ProvingKey(f2, tab)  vk == VerifyingKey(f2, tab)
                 IN Sample # {} /\ \A w \in Sample : /\ Satisfies(w)
                                      /\ \A q \in {<<0, 0>>, <<1, 3>>} : Verifies(vk, Proof(pk, w, q[1], q[2]), w)
                                      /\ LET pf == Proof(pk, w, 1, 3)
                                             v == [w EXCEPT ![2] = GFAdd(@, 1)]
                                         IN Verifies(vk, pf, v) => PubSum(vk, v) = PubSum(vk, w)
\* the keys hold Groth16's elements for the products of the secrets
Lag(i) == LagrangeAt(DomainOf(c), i, sec.tau)
AtTau(m, w) == FSum([k \in DOMAIN m[w + 1] |-> GFMul(m[w + 1][k][2], Lag(m[w + 1][k][1]))])
OnDomain == GFPow(sec.tau, DomainOf(c)) = 1
KeysAreGroth16 ==
    Extracted =>
        LET n == DomainOf(c)
            di == GFInv(sec.delta)
            K(w) == FSum(<<GFMul(sec.beta, AtTau(c.A, w)), GFMul(sec.alpha, AtTau(c.B, w)), AtTau(c.C, w)>>)
            pw == WiresOf(c, "private")  uw == WiresOf(c, "public")
        IN /\ \A w \in 0..(c.wires - 1) : tab.a[w + 1] = AtTau(c.A, w) /\ tab.b[w + 1] = AtTau(c.B, w) /\ tab.b2[w + 1] = tab.b[w + 1]
           /\ \A i \in DOMAIN pw : f2.pkk[i] = GFMul(di, K(pw[i]))
           /\ \A i \in DOMAIN uw : tab.vkk[i] = K(uw[i])
           /\ f2.delta1 = sec.delta /\ f2.delta2 = sec.delta
           /\ tab.alpha1 = sec.alpha /\ tab.beta1 = sec.beta /\ tab.beta2 = sec.beta
           /\ \A i \in 1..(n - 1) : f2.z[i] = GFMul(di, GFMul(GFPow(sec.tau, Reversed(i - 1, Log2(n))), GFSub(GFPow(sec.tau, n), 1)))
=============================================================================
