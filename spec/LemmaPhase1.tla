---------------------------- MODULE LemmaPhase1 ----------------------------
(***************************************************************************)
(* Exhaustively over a small field: the checks of phase 1 verification are *)
(* equivalent to what acceptance means, for arbitrary values of every      *)
(* point of one section, and for arbitrary values of everything a record   *)
(* says about one parameter (power 1, and 2 for the short sections).       *)
(***************************************************************************)
EXTENDS Phase1, GF

EmptyHash == <<>>
SymHash(r) == <<"h", r.tau1, r.alpha1, r.beta1, r.tau2, r.beta2, r.keys>>

NZ == 1..(GFQ - 1)
Key0(x, p) == Key(2, x, <<>>, Dst[p])
LastRec(t, a, b) == Sealed([tau1 |-> t, alpha1 |-> a, beta1 |-> b, tau2 |-> t, beta2 |-> b,
                            keys |-> [tau |-> Key0(t, "tau"), alpha |-> Key0(a, "alpha"), beta |-> Key0(b, "beta")], hash |-> <<>>])
HonestFile(p, t, a, b) == FileOf(p, 1, t, t, a, b, b, <<LastRec(t, a, b)>>)

VARIABLES kind, arg, seen
vars == <<kind, arg, seen>>

\* what a record says about parameter p: prev, value in G1, in G2, S, SX, multiple of SP, the challenge and tag SP was made with
Init == /\ seen = FALSE
        /\ \/ kind = "section" /\ arg \in UNION {{<<sec[1], sec[2], t, a, 2>> : t \in NZ, a \in NZ}
                                        : sec \in {<<"tauG1", 1>>, <<"alphaG1", 1>>, <<"betaG1", 1>>, <<"tauG2", 1>>, <<"betaG2", 1>>,
                                                   <<"alphaG1", 2>>, <<"tauG2", 2>>}}
           \/ kind = "record" /\ arg \in Params \X NZ \X GFElems
Next == /\ ~seen /\ seen' = TRUE /\ UNCHANGED kind
        /\ \/ kind = "section" /\ \E s \in [1..SectionLen(arg[1], arg[2]) -> GFElems] : arg' = Append(arg, s)
           \/ kind = "record" /\ \E v2 \in GFElems, s \in GFElems, sx \in GFElems, x \in GFElems, ch \in {<<>>, <<"other">>}, d \in 1..2 :
                arg' = arg \o <<v2, s, sx, x, ch, d>>

SectionLemma ==
    kind = "section" /\ seen =>
        LET f == [HonestFile(arg[2], arg[3], arg[4], arg[5]) EXCEPT ![arg[1]] = arg[6]]
        IN /\ (SectionsFailing(f, f.contribs[1]) = {}) = ParamsAre(f, arg[3], arg[4], arg[5])
           /\ Accepts(f, DefaultBase) = WellFormed(f, DefaultBase)

RecordLemma ==
    kind = "record" /\ seen =>
        LET p == arg[1]
            v0 == arg[2]
            prev == [tau1 |-> IF p = "tau" THEN v0 ELSE 3, tau2 |-> IF p = "tau" THEN v0 ELSE 3, alpha1 |-> IF p = "alpha" THEN v0 ELSE 2,
                     beta1 |-> IF p = "beta" THEN v0 ELSE 1, beta2 |-> IF p = "beta" THEN v0 ELSE 1, hash |-> <<>>]
            key == [s |-> arg[5], sx |-> arg[6], sp |-> SPof(arg[5], arg[6], arg[8], arg[9]), x |-> arg[7]]
            h == [tau1 |-> GFMul(prev.tau1, 2), alpha1 |-> GFMul(prev.alpha1, 3), beta1 |-> GFMul(prev.beta1, 3),
                  tau2 |-> GFMul(prev.tau2, 2), beta2 |-> GFMul(prev.beta2, 3),
                  keys |-> [tau |-> Key0(2, "tau"), alpha |-> Key0(3, "alpha"), beta |-> Key0(3, "beta")], hash |-> <<>>]
            r == Sealed([CASE p = "tau" -> [h EXCEPT !.tau1 = arg[3], !.tau2 = arg[4]]
                           [] p = "alpha" -> [h EXCEPT !.alpha1 = arg[3]]
                           [] p = "beta" -> [h EXCEPT !.beta1 = arg[3], !.beta2 = arg[4]] EXCEPT !.keys[p] = key])
        IN (RecordFailing(r, prev) = {}) = ProperUpdate(r, prev)

=============================================================================
