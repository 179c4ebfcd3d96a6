------------------------------- MODULE Inputs -------------------------------
(***************************************************************************)
(* Files the specification makes to feed the implementation with, besides  *)
(* those it makes itself: phase 1 and phase 2 files with any number of     *)
(* contributions, Powers of Tau files and evaluations, all with known      *)
(* logarithms.  Every one is described by a step of a scenario, a record   *)
(* with the field op, and depends on ZK_SEED.                              *)
(***************************************************************************)
EXTENDS CircuitBytes

Seed == EnvStr("ZK_SEED", "1")
Pick(s) == BHashScalar(Seed \o "/in/" \o s)
Picks(s, n) == [i \in 1..n |-> Pick(s \o "." \o ToString(i))]
Secrets1(s) == [tau |-> Pick(s \o "t"), alpha |-> Pick(s \o "a"), beta |-> Pick(s \o "b"),
                sTau |-> Pick(s \o "st"), sAlpha |-> Pick(s \o "sa"), sBeta |-> Pick(s \o "sb")]
Secrets2(s) == [delta |-> Pick(s \o "d"), s |-> Pick(s \o "s")]

RECURSIVE Contributed1(_, _, _)
Contributed1(f, s, n) == IF n = 0 THEN f ELSE Contributed1(Contribute(f, Secrets1(s \o ToString(n))), s, n - 1)
RECURSIVE Contributed2(_, _, _)
Contributed2(f, s, n) == IF n = 0 THEN f ELSE Contributed2(Contribute2(f, Secrets2(s \o ToString(n))), s, n - 1)

\* unrelated elements, some opposite or equal to the ones before them or zero
Mixed(s) == [i \in DOMAIN s |-> CASE i % 8 = 5 -> FNeg(s[i - 1]) [] i % 8 = 6 -> s[i - 2] [] i % 8 = 0 -> FZero [] OTHER -> s[i]]

Powers(s, p) == LET x == Secrets1(s) IN FileOf(p, 0, x.tau, x.tau, x.alpha, x.beta, x.beta, <<>>)

\* records that aren't what a contribution would have left: e.junk is "no", "hash" (other hashes), "points" (unrelated elements), or
\* "short" (elements at infinity); a contribution keeps them as they are all the same
Junk(e, h, j) == IF e.junk = "hash" THEN Sha(UInt(j, 4)) ELSE h
JunkAt(e, s, j, x) == CASE e.junk = "points" -> Pick(e.out \o s \o ToString(j)) [] e.junk = "short" /\ (j + Len(s)) % 2 = 0 -> FZero [] OTHER -> x
JunkKey(e, s, j, k) == [k EXCEPT !.s = JunkAt(e, s \o "s", j, @), !.sx = JunkAt(e, s \o "sx", j, @), !.x = JunkAt(e, s \o "x", j, @)]
Junk1(e, f) ==
    IF e.junk = "no" THEN f
    ELSE [f EXCEPT !.contribs = [j \in DOMAIN @ |->
            LET r == @[j] IN [tau1 |-> JunkAt(e, "t1", j, r.tau1), alpha1 |-> JunkAt(e, "a1.", j, r.alpha1), beta1 |-> JunkAt(e, "b1", j, r.beta1),
                              tau2 |-> JunkAt(e, "t2.", j, r.tau2), beta2 |-> JunkAt(e, "b2", j, r.beta2),
                              keys |-> [tau |-> JunkKey(e, "t", j, r.keys.tau), alpha |-> JunkKey(e, "a", j, r.keys.alpha), beta |-> JunkKey(e, "b", j, r.keys.beta)],
                              hash |-> Junk(e, r.hash, j)]]]
Junk2(e, f) ==
    IF e.junk = "no" THEN f
    ELSE [f EXCEPT !.contribs = [j \in DOMAIN @ |-> LET r == @[j] IN [delta |-> JunkAt(e, "d", j, r.delta), key |-> JunkKey(e, "k", j, r.key), hash |-> Junk(e, r.hash, j)]]]

\* a phase 1 file: e.power, e.logs ("unit" or a name), e.n contributions
Start1(e) == IF e.logs = "unit" THEN Initialize(e.power) ELSE Powers(e.logs, e.power)
Made1(e) == LET f == Junk1(e, Contributed1(Start1(e), e.out, e.n)) IN [f EXCEPT !.n = @ + e.left]

\* a Powers of Tau file: e.power, e.logs a name, e.random: whether the points are unrelated
MadePpot(e) ==
    IF e.random THEN [Powers(e.logs, e.power) EXCEPT !.tauG1 = Mixed(Picks(e.logs \o "1", Len(@))), !.alphaG1 = Mixed(Picks(e.logs \o "2", Len(@))),
                                                     !.betaG1 = Picks(e.logs \o "3", Len(@)), !.tauG2 = Mixed(Picks(e.logs \o "4", Len(@)))]
    ELSE Powers(e.logs, e.power)

\* files too large to be written out: only the beginnings of the sections, as of a file of power e.prefix, are there, the rest is a hole
Prefix(e) == [Powers(e.logs, e.prefix) EXCEPT !.power = e.power]
IsSparse(e) == e.op \in {"mk1s", "mkppots"}
MadePieces(e) == IF e.op = "mk1s" THEN Pieces(Prefix(e)) ELSE ChallengePieces(Prefix(e))

\* every third element is zero, or all are, or opposite to the one before, or as Mixed
Gaps(s, zeros) == IF zeros = "none" THEN s ELSE IF zeros = "mixed" THEN Mixed(s) ELSE IF zeros = "opposite" THEN [i \in DOMAIN s |-> IF i % 2 = 0 THEN FNeg(s[i - 1]) ELSE s[i]] ELSE [i \in DOMAIN s |-> IF zeros = "all" \/ i % 3 = 1 THEN FZero ELSE s[i]]

\* a phase 2 file: dimensions, e.logs a name, e.zeros, e.n contributions
Origin2(e) ==
    [hdr |-> [wires |-> e.wires, witness |-> e.witness, public |-> e.public, committed |-> e.committed,
              constraints |-> e.constraints, domain |-> e.domain],
     n |-> 0, delta1 |-> FOne, delta2 |-> FOne, z |-> Picks(e.logs \o "z", e.domain - 1),
     pkk |-> Gaps(Picks(e.logs \o "k", e.witness), e.zeros), contribs |-> <<>>, form |-> <<>>]
Made2(e) == LET f == Junk2(e, Contributed2(Origin2(e), e.out, e.n)) IN [f EXCEPT !.n = @ + e.left]
\* e.left: how many further copies of the last record the file has.  They are left out of the abstract file, whose counter tells of them, and out of
\* the bytes observed of files based on it if they are there; so counters can be any
Repeated(e) == IF e.left = 0 THEN "" ELSE LET f == IF e.op = "mk1" THEN Made1(e) ELSE Made2(e)
                                              r == f.contribs[Len(f.contribs)]
                                          IN IF e.op = "mk1" THEN RecordBytes(r) ELSE RecordBytes2(r)

\* the evaluations to a phase 2 file of the same dimensions
MadeEvals(e) ==
    LET x == Secrets1(e.logs)
        b == Gaps(Picks(e.logs \o "B", e.wires), e.zeros)
    IN [alpha1 |-> x.alpha, beta1 |-> x.beta, beta2 |-> x.beta,
        a |-> Gaps(Picks(e.logs \o "A", e.wires), e.zeros), b |-> b, b2 |-> b,
        vkk |-> Gaps(Picks(e.logs \o "V", e.public), IF e.zeros = "all" THEN "some" ELSE IF e.zeros = "opposite" THEN "opposite" ELSE "none"), ckk |-> Picks(e.logs \o "C", e.committed)]
MadeInfo(e) == IF e.committed = 0 THEN NoInfo
               ELSE [committed |-> [i \in 1..e.committed |-> e.public + i - 1], private |-> e.committed, hint |-> 41337563,
                     index |-> e.public + e.committed, all |-> [i \in 1..(e.committed + 1) |-> e.public + i - 1]]

MadeBytes(e) == CASE e.op = "mk1" -> FileBytes(Made1(e))
                  [] e.op = "mkppot" -> ChallengeBytes(MadePpot(e))
                  [] e.op = "mk2" -> FileBytes2(Made2(e))
                  [] e.op = "mkev" -> EvalsBytes(MadeEvals(e), MadeInfo(e))
IsInput(e) == e.op \in {"mk1", "mkppot", "mk2", "mkev"} \/ IsSparse(e)
=============================================================================
