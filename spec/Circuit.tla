------------------------------ MODULE Circuit ------------------------------
(***************************************************************************)
(* Phase 2 initialization: from phase 1 parameters and a circuit to the    *)
(* origin of phase 2 and the evaluations.  A circuit (rank 1 constraint    *)
(* system over wires 0..wires-1) is a record                               *)
(*   public       number of public wires (the first ones, wire 0 is one)   *)
(*   wires constraints                                                     *)
(*   committed    sequence of the committed private wires, ascending       *)
(*   commitment   the wire of the commitment, -1 without one               *)
(*   A B C        sequences by wire (wire w at w+1) of <<constraint,       *)
(*                coefficient>>: constraint i says                         *)
(*                (sum A w) * (sum B w) = sum C w                          *)
(***************************************************************************)
EXTENDS Phase1, Phase2

CONSTANT FIDFT(_)          \* inverse discrete Fourier transform, IDFT of Algebra

RECURSIVE PowerOf2From(_, _)
PowerOf2From(p, n) == IF p >= n THEN p ELSE PowerOf2From(2 * p, n)
DomainOf(c) == PowerOf2From(2, c.constraints)
Fits(c, power) == c.constraints <= N(power)

(***************************************************************************)
(* Which key a wire's element goes to, as in gnark's setup                 *)
(***************************************************************************)
HasCommitment(c) == c.commitment # -1
IsCommitted(c, w) == \E j \in DOMAIN c.committed : c.committed[j] = w
KindOf(c, w) == IF IsCommitted(c, w) THEN "committed"
                ELSE IF w < c.public \/ w = c.commitment THEN "public" ELSE "private"
WiresOf(c, kind) == SelectSeq([i \in 1..c.wires |-> i - 1], LAMBDA w : KindOf(c, w) = kind)

HeaderOf(c) == [wires |-> c.wires, witness |-> Len(WiresOf(c, "private")), public |-> Len(WiresOf(c, "public")),
                committed |-> Len(c.committed), constraints |-> c.constraints, domain |-> DomainOf(c)]

\* sum of coefficient * lag[constraint] for every wire
Evaluate(m, lag) == [w \in DOMAIN m |-> FDot([k \in DOMAIN m[w] |-> m[w][k][2]], [k \in DOMAIN m[w] |-> lag[m[w][k][1] + 1]])]

\* the elements tau^i (tau^n - 1), i = 0..n-2, in the order of the prover's quotient (bit reversed, the last dropped)
Vanishing(tauG1, n) == SubSeq(BitReversed([i \in 1..n |-> IF i = n THEN FZero ELSE FSub(tauG1[i + n], tauG1[i])]), 1, n - 1)

LagrangeFile(f1, c) ==
    LET n == DomainOf(c)
    IN [tau |-> FIDFT(SubSeq(f1.tauG1, 1, n)), alpha |-> FIDFT(SubSeq(f1.alphaG1, 1, n)),
        beta |-> FIDFT(SubSeq(f1.betaG1, 1, n)), tau2 |-> FIDFT(SubSeq(f1.tauG2, 1, n))]

\* [lag, f2, ev]
Initialize2(f1, c) ==
    LET lag == LagrangeFile(f1, c)
        a == Evaluate(c.A, lag.tau)
        ca == Evaluate(c.C, lag.tau)
        ab == Evaluate(c.B, lag.alpha)
        ba == Evaluate(c.A, lag.beta)
        k == [w \in DOMAIN a |-> FAdd(ca[w], FAdd(ab[w], ba[w]))]
        pick(kind) == LET ws == WiresOf(c, kind) IN [i \in DOMAIN ws |-> k[ws[i] + 1]]
        n == DomainOf(c)
    IN [lag |-> lag,
        f2 |-> [hdr |-> HeaderOf(c), n |-> 0, delta1 |-> FOne, delta2 |-> FOne,
                z |-> Vanishing(f1.tauG1, n), pkk |-> pick("private"), contribs |-> <<>>, form |-> <<>>],
        ev |-> [alpha1 |-> f1.alphaG1[1], beta1 |-> f1.betaG1[1], beta2 |-> f1.betaG2[1],
                a |-> a, b |-> Evaluate(c.B, lag.tau), b2 |-> Evaluate(c.B, lag.tau2),
                vkk |-> pick("public"), ckk |-> pick("committed")]]

(***************************************************************************)
(* Key extraction                                                          *)
(***************************************************************************)
NonZero(s) == SelectSeq(s, LAMBDA x : x # FZero)
Infinity(s) == [i \in DOMAIN s |-> s[i] = FZero]

ProvingKey(f2, ev) ==
    [domain |-> f2.hdr.domain, wires |-> f2.hdr.wires,
     alpha1 |-> ev.alpha1, beta1 |-> ev.beta1, beta2 |-> ev.beta2, delta1 |-> f2.delta1, delta2 |-> f2.delta2,
     a |-> NonZero(ev.a), b |-> NonZero(ev.b), b2 |-> NonZero(ev.b2), infA |-> Infinity(ev.a), infB |-> Infinity(ev.b),
     z |-> f2.z, k |-> f2.pkk]
VerifyingKey(f2, ev) ==
    [alpha1 |-> ev.alpha1, beta1 |-> ev.beta1, beta2 |-> ev.beta2, gamma2 |-> FOne,
     delta1 |-> f2.delta1, delta2 |-> f2.delta2, k |-> ev.vkk]
=============================================================================
