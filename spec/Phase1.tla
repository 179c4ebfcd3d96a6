------------------------------- MODULE Phase1 -------------------------------
(***************************************************************************)
(* Phase 1 (powers of tau): the file, its initialization, the conversion   *)
(* of a Powers of Tau file, a contribution, and verification.              *)
(*                                                                         *)
(* A file is a record                                                      *)
(*   power, n       header: log2 of the size, number of contributions      *)
(*   tauG1 alphaG1 betaG1 tauG2 betaG2   sections, sequences of points     *)
(*   contribs       sequence of contribution records                       *)
(*   form           malformed encodings in the file (<<>> if all is well)  *)
(***************************************************************************)
EXTENDS Proofs

CONSTANT Hash1(_)    \* SHA-256 of the points of a record

MaxContributions == 65535
N(p) == 2^p
Sections == <<"tauG1", "alphaG1", "betaG1", "tauG2", "betaG2">>
SectionLen(sec, p) == CASE sec = "tauG1" -> 2*N(p) - 1 [] sec = "betaG2" -> 1 [] OTHER -> N(p)
Dst == [tau |-> 1, alpha |-> 2, beta |-> 3]
Params == {"tau", "alpha", "beta"}

(***************************************************************************)
(* Starting points and honest operations                                   *)
(***************************************************************************)
FileOf(p, n, T1, T2, A, B1, B2, contribs) ==
    [power |-> p, n |-> n,
     tauG1 |-> FGeom(FOne, T1, 2*N(p) - 1), alphaG1 |-> FGeom(A, T1, N(p)), betaG1 |-> FGeom(B1, T1, N(p)),
     tauG2 |-> FGeom(FOne, T2, N(p)), betaG2 |-> <<B2>>,
     contribs |-> contribs, form |-> <<>>]

Initialize(p) == FileOf(p, 0, FOne, FOne, FOne, FOne, FOne, <<>>)

\* g is a Powers of Tau file: the same sections for a power p >= q
Transform(g, q) ==
    [power |-> q, n |-> 0,
     tauG1 |-> SubSeq(g.tauG1, 1, 2*N(q) - 1), alphaG1 |-> SubSeq(g.alphaG1, 1, N(q)), betaG1 |-> SubSeq(g.betaG1, 1, N(q)),
     tauG2 |-> SubSeq(g.tauG2, 1, N(q)), betaG2 |-> g.betaG2,
     contribs |-> <<>>, form |-> <<>>]

DefaultBase == [tau1 |-> FOne, alpha1 |-> FOne, beta1 |-> FOne, tau2 |-> FOne, beta2 |-> FOne, hash |-> NoHash]
BaseOf(f) == [tau1 |-> f.tauG1[2], alpha1 |-> f.alphaG1[1], beta1 |-> f.betaG1[1],
              tau2 |-> f.tauG2[2], beta2 |-> f.betaG2[1], hash |-> NoHash]

ChallengeOf(f) == IF f.n = 0 THEN NoHash ELSE f.contribs[f.n].hash
Sealed(r) == [r EXCEPT !.hash = Hash1(r)]

\* sec: the secrets tau, alpha, beta and the blindings sTau, sAlpha, sBeta
Contribute(f, sec) ==
    LET pow == FGeom(FOne, sec.tau, 2*N(f.power) - 1)
        tauG1 == Products(f.tauG1, pow)
        alphaG1 == [i \in DOMAIN f.alphaG1 |-> FMul(FMul(f.alphaG1[i], sec.alpha), pow[i])]
        betaG1 == [i \in DOMAIN f.betaG1 |-> FMul(FMul(f.betaG1[i], sec.beta), pow[i])]
        tauG2 == [i \in DOMAIN f.tauG2 |-> FMul(f.tauG2[i], pow[i])]
        betaG2 == Scaled(f.betaG2, sec.beta)
        chal == ChallengeOf(f)
        r == [tau1 |-> tauG1[2], alpha1 |-> alphaG1[1], beta1 |-> betaG1[1], tau2 |-> tauG2[2], beta2 |-> betaG2[1],
              keys |-> [tau   |-> Key(sec.sTau, sec.tau, chal, Dst["tau"]),
                        alpha |-> Key(sec.sAlpha, sec.alpha, chal, Dst["alpha"]),
                        beta  |-> Key(sec.sBeta, sec.beta, chal, Dst["beta"])],
              hash |-> NoHash]
    IN [power |-> f.power, n |-> f.n + 1,
        tauG1 |-> tauG1, alphaG1 |-> alphaG1, betaG1 |-> betaG1, tauG2 |-> tauG2, betaG2 |-> betaG2,
        contribs |-> Append(SubSeq(f.contribs, 1, f.n), Sealed(r)), form |-> <<>>]

CanContribute(f) == f.n < MaxContributions /\ Len(f.contribs) >= f.n /\ f.form = <<>>

(***************************************************************************)
(* Verification, check by check as phase1.Verify makes them.  A random     *)
(* linear combination of a section is modelled as the conjunction over its *)
(* points (it differs with probability 2^-254).                            *)
(***************************************************************************)
RecordFailing(r, prev) ==
    LET sp(p) == SPof(r.keys[p].s, r.keys[p].sx, prev.hash, Dst[p])
        k(p) == r.keys[p]
        degenerate == \E p \in Params : k(p).s = FZero \/ k(p).sx = FZero
    IN (IF degenerate THEN {"degenerate"} ELSE {})
       \cup {"pok." \o p : p \in {q \in Params : ~PairSame(k(q).s, k(q).sx, k(q), sp(q))}}
       \cup (IF PairSame(prev.tau1, r.tau1, k("tau"), sp("tau")) THEN {} ELSE {"upd.tauG1"})
       \cup (IF PairSame(prev.alpha1, r.alpha1, k("alpha"), sp("alpha")) THEN {} ELSE {"upd.alphaG1"})
       \cup (IF PairSame(prev.beta1, r.beta1, k("beta"), sp("beta")) THEN {} ELSE {"upd.betaG1"})
       \cup (IF FMul(k("tau").s, r.tau2) = FMul(k("tau").sx, prev.tau2) THEN {} ELSE {"upd.tauG2"})
       \cup (IF FMul(k("beta").s, r.beta2) = FMul(k("beta").sx, prev.beta2) THEN {} ELSE {"upd.betaG2"})
       \cup (IF r.hash = Hash1(r) THEN {} ELSE {"hash"})

RatioIs(s, x) == \A i \in 1..(Len(s) - 1) : s[i + 1] = FMul(s[i], x)

SectionsFailing(f, last) ==
    (IF f.tauG1[1] = FOne THEN {} ELSE {"tauG1.first"})
    \cup (IF RatioIs(f.tauG1, last.tau2) THEN {} ELSE {"tauG1.ratio"})
    \cup (IF f.alphaG1[1] = last.alpha1 THEN {} ELSE {"alphaG1.first"})
    \cup (IF RatioIs(f.alphaG1, last.tau2) THEN {} ELSE {"alphaG1.ratio"})
    \cup (IF f.betaG1[1] = last.beta1 THEN {} ELSE {"betaG1.first"})
    \cup (IF RatioIs(f.betaG1, last.tau2) THEN {} ELSE {"betaG1.ratio"})
    \cup (IF f.tauG2[1] = FOne THEN {} ELSE {"tauG2.first"})
    \cup (IF RatioIs(f.tauG2, last.tau1) THEN {} ELSE {"tauG2.ratio"})
    \cup (IF f.betaG2[1] = last.beta2 THEN {} ELSE {"betaG2"})

PrevOf(f, base, j) == IF j = 1 THEN base ELSE f.contribs[j - 1]

Failing(f, base) ==
    IF f.form # <<>> THEN {"form"}
    ELSE IF f.n = 0 THEN {"empty"}
    ELSE IF Len(f.contribs) < f.n THEN {"truncated"}
    ELSE UNION {RecordFailing(f.contribs[j], PrevOf(f, base, j)) : j \in 1..f.n}
         \cup SectionsFailing(f, f.contribs[f.n])

Accepts(f, base) == Failing(f, base) = {}

(***************************************************************************)
(* What acceptance is supposed to mean (C03, C04), written without         *)
(* pairings: there are nonzero secrets such that every record is a proper  *)
(* update of the one before, and the parameters are the powers.            *)
(***************************************************************************)
ProperUpdate(r, prev) ==
    LET t == SecretOf(r.keys.tau)
        a == SecretOf(r.keys.alpha)
        b == SecretOf(r.keys.beta)
    IN /\ ProperKey(r.keys.tau, t, prev.hash, 1)
       /\ ProperKey(r.keys.alpha, a, prev.hash, 2)
       /\ ProperKey(r.keys.beta, b, prev.hash, 3)
       /\ r.tau1 = FMul(prev.tau1, t) /\ r.tau2 = FMul(prev.tau2, t)
       /\ r.alpha1 = FMul(prev.alpha1, a)
       /\ r.beta1 = FMul(prev.beta1, b) /\ r.beta2 = FMul(prev.beta2, b)
       /\ r.hash = Hash1(r)

ParamsAre(f, t, a, b) ==
    /\ f.tauG1 = FGeom(FOne, t, 2*N(f.power) - 1)
    /\ f.alphaG1 = FGeom(a, t, N(f.power))
    /\ f.betaG1 = FGeom(b, t, N(f.power))
    /\ f.tauG2 = FGeom(FOne, t, N(f.power))
    /\ f.betaG2 = <<b>>

WellFormed(f, base) ==
    /\ f.form = <<>>
    /\ f.n >= 1 /\ Len(f.contribs) >= f.n
    /\ \A j \in 1..f.n : ProperUpdate(f.contribs[j], PrevOf(f, base, j))
    /\ LET r == f.contribs[f.n] IN ParamsAre(f, r.tau1, r.alpha1, r.beta1)

\* the starting point itself is consistent between G1 and G2
ConsistentBase(base) == base.tau1 = base.tau2 /\ base.beta1 = base.beta2
                        /\ base.tau1 # FZero /\ base.alpha1 # FZero /\ base.beta1 # FZero
=============================================================================
