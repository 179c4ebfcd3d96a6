----------------------------- MODULE Adversary1 -----------------------------
(***************************************************************************)
(* Phase 1 files nobody should accept, and some that must be accepted: an  *)
(* adversary makes any number of contributions, knows all secrets, and     *)
(* deviates in one way.  A deviation inside record j is continued          *)
(* consistently, so that (if at all possible) only one check can notice.   *)
(***************************************************************************)
EXTENDS Phase1

CONSTANTS Scalar(_),       \* nonzero scalars, one per string
          Secret(_, _),    \* Secret(chain, j): the secrets of contribution j of a chain
          BogusHash(_),    \* a well-formed hash of nothing
          FlipHash(_, _)   \* a hash differing in one bit (two variants, 0 and 1)

Chain(c, k) == [j \in 1..k |-> Secret(c, j)]

RECURSIVE HonestOn(_, _)
HonestOn(f, secs) == IF secs = <<>> THEN f ELSE HonestOn(Contribute(f, Head(secs)), Tail(secs))

(***************************************************************************)
(* Deviations inside a record: kind, the parameter it concerns             *)
(***************************************************************************)
NoDev == [kind |-> "none", p |-> "tau"]
RecordKinds == {"pok", "upd1", "upd2", "noS", "zero", "one", "challenge", "nochallenge", "dst", "spx0", "replay", "swapkeys",
                "negS", "scaledS", "hash", "hash0", "hash31", "oldhash",
                "keep", "keep1", "keep2", "neg", "neg1", "neg2", "endo", "endo1", "endo2", "inverse", "square", "fork", "base", "oldchallenge"}
OnlyTau == {"one", "hash", "hash0", "hash31", "oldhash"}
HasG2 == {"tau", "beta"}
Devs(j) == {[kind |-> kd, p |-> p] : kd \in RecordKinds, p \in Params}
    \ ({[kind |-> kd, p |-> p] : kd \in OnlyTau, p \in {"alpha", "beta"}}
       \cup {[kind |-> kd, p |-> "alpha"] : kd \in {"upd2", "keep2", "neg2", "endo2"}}
       \cup (IF j = 1 THEN {[kind |-> kd, p |-> p] : kd \in {"replay", "nochallenge", "oldhash", "fork", "base", "oldchallenge"}, p \in Params} ELSE {})
       \cup (IF j = 2 THEN {[kind |-> kd, p |-> p] : kd \in {"fork", "oldchallenge"}, p \in Params} ELSE {}))

ZZ == Scalar("z")
Endo == Scalar("endo")       \* a cube root of unity: Endo times a point has the same y, as minus a point has the same x
Alter(how, x) == CASE how = "scale" -> FMul(x, ZZ) [] how = "zero" -> FZero [] how = "neg" -> FNeg(x) [] how = "endo" -> FMul(x, Endo)

\* the value of the parameter after the record: <<in G1, in G2>>, and its key
\* old, base: the values of the record before the previous one and of the starting point, <<in G1, in G2, challenge>>
Deviate(d, p, x, s, v1, v2, chal, prevKeys, old, base) ==
    LET hon == [v1 |-> FMul(v1, x), v2 |-> FMul(v2, x), key |-> Key(s, x, chal, Dst[p])]
    IN IF d.p # p \/ d.kind \in {"none", "hash", "hash0", "hash31", "oldhash"} THEN hon
       ELSE CASE d.kind = "pok"   -> [v1 |-> FMul(v1, x), v2 |-> FMul(v2, ZZ), key |-> KeyFor(s, FMul(s, ZZ), x, chal, Dst[p])]
              [] d.kind = "upd1"  -> [hon EXCEPT !.v1 = FMul(v1, ZZ)]
              [] d.kind = "upd2"  -> [hon EXCEPT !.v2 = FMul(v2, ZZ)]
              [] d.kind = "noS"   -> [v1 |-> FMul(v1, x), v2 |-> FMul(v2, ZZ), key |-> KeyFor(FZero, FZero, x, chal, Dst[p])]
              [] d.kind = "zero"  -> [v1 |-> FZero, v2 |-> FZero, key |-> Key(s, FZero, chal, Dst[p])]
              [] d.kind = "one"   -> [v1 |-> v1, v2 |-> v2, key |-> Key(s, FOne, chal, Dst[p])]
              [] d.kind = "challenge" -> [hon EXCEPT !.key = Key(s, x, BogusHash("c"), Dst[p])]
              [] d.kind = "nochallenge" -> [hon EXCEPT !.key = Key(s, x, NoHash, Dst[p])]
              [] d.kind = "dst"   -> [hon EXCEPT !.key = Key(s, x, chal, (Dst[p] % 3) + 1)]
              [] d.kind = "spx0"  -> [hon EXCEPT !.key = KeyFor(s, FMul(s, x), FZero, chal, Dst[p])]
              [] d.kind = "replay" -> [v1 |-> FMul(v1, SecretOf(prevKeys[p])), v2 |-> FMul(v2, SecretOf(prevKeys[p])), key |-> prevKeys[p]]
              [] d.kind = "swapkeys" -> [hon EXCEPT !.key = KeyFor(FMul(s, x), s, x, chal, Dst[p])]
              [] d.kind = "negS"  -> [hon EXCEPT !.key = [hon.key EXCEPT !.s = FNeg(@), !.sx = FNeg(@)]]
              [] d.kind = "scaledS" -> [hon EXCEPT !.key = [hon.key EXCEPT !.s = FMul(@, ZZ), !.sx = FMul(@, ZZ)]]
              [] d.kind = "keep"  -> [hon EXCEPT !.v1 = v1, !.v2 = v2]        \* the key is that of another secret
              [] d.kind = "keep1" -> [hon EXCEPT !.v1 = v1]
              [] d.kind = "keep2" -> [hon EXCEPT !.v2 = v2]
              [] d.kind = "neg"   -> [hon EXCEPT !.v1 = FNeg(@), !.v2 = FNeg(@)]
              [] d.kind = "neg1"  -> [hon EXCEPT !.v1 = FNeg(@)]
              [] d.kind = "neg2"  -> [hon EXCEPT !.v2 = FNeg(@)]
              [] d.kind = "endo"  -> [hon EXCEPT !.v1 = FMul(@, Endo), !.v2 = FMul(@, Endo)]
              [] d.kind = "endo1" -> [hon EXCEPT !.v1 = FMul(@, Endo)]
              [] d.kind = "endo2" -> [hon EXCEPT !.v2 = FMul(@, Endo)]
              [] d.kind = "inverse" -> [hon EXCEPT !.v1 = FDiv(v1, x), !.v2 = FDiv(v2, x)]
              [] d.kind = "square" -> [hon EXCEPT !.v1 = FMul(@, x), !.v2 = FMul(@, x)]
              [] d.kind = "fork"  -> [hon EXCEPT !.v1 = FMul(old[1], x), !.v2 = FMul(old[2], x)]
              [] d.kind = "base"  -> [hon EXCEPT !.v1 = FMul(base[1], x), !.v2 = FMul(base[2], x)]
              [] d.kind = "oldchallenge" -> [hon EXCEPT !.key = Key(s, x, old[3], Dst[p])]

\* the record after prev (whose keys are prevKeys) and old, deviating by d
DevRecord(d, sec, prev, prevKeys, old, base) ==
    LET t == Deviate(d, "tau", sec.tau, sec.sTau, prev.tau1, prev.tau2, prev.hash, prevKeys, <<old.tau1, old.tau2, old.hash>>, <<base.tau1, base.tau2>>)
        a == Deviate(d, "alpha", sec.alpha, sec.sAlpha, prev.alpha1, FOne, prev.hash, prevKeys, <<old.alpha1, FOne, old.hash>>, <<base.alpha1, FOne>>)
        b == Deviate(d, "beta", sec.beta, sec.sBeta, prev.beta1, prev.beta2, prev.hash, prevKeys, <<old.beta1, old.beta2, old.hash>>, <<base.beta1, base.beta2>>)
        r == Sealed([tau1 |-> t.v1, alpha1 |-> a.v1, beta1 |-> b.v1, tau2 |-> t.v2, beta2 |-> b.v2,
                     keys |-> [tau |-> t.key, alpha |-> a.key, beta |-> b.key], hash |-> NoHash])
    IN CASE d.kind = "hash" -> [r EXCEPT !.hash = BogusHash("h")]
         [] d.kind = "hash0" -> [r EXCEPT !.hash = FlipHash(@, 0)]
         [] d.kind = "hash31" -> [r EXCEPT !.hash = FlipHash(@, 1)]
         [] d.kind = "oldhash" -> [r EXCEPT !.hash = prev.hash]
         [] OTHER -> r

NoKeys == [tau |-> Key(FOne, FOne, NoHash, 1), alpha |-> Key(FOne, FOne, NoHash, 2), beta |-> Key(FOne, FOne, NoHash, 3)]

RECURSIVE DevRecords(_, _, _, _, _)
\* records for secs from position j on after the records done, record at deviating by d
DevRecords(secs, base, done, at, d) ==
    LET j == Len(done) + 1
        prev == IF j = 1 THEN base ELSE done[j - 1]
        prevKeys == IF j = 1 THEN NoKeys ELSE done[j - 1].keys
    IN IF j > Len(secs) THEN done
       ELSE DevRecords(secs, base, Append(done, DevRecord(IF j = at THEN d ELSE NoDev, secs[j], prev, prevKeys, IF j <= 2 THEN base ELSE done[j - 2], base)), at, d)

\* the file whose sections are what its last record claims (tau in G1 from the G2 record and
\* vice versa, since that is what the verifier compares)
FileFor(p, records) ==
    LET r == records[Len(records)]
    IN [FileOf(p, Len(records), r.tau2, r.tau1, r.alpha1, r.beta1, r.beta2, records) EXCEPT !.n = Len(records)]

DevFile(p, base, secs, at, d) == FileFor(p, DevRecords(secs, base, <<>>, at, d))

(***************************************************************************)
(* Deviations in the list of records of an honest file f of k records.     *)
(* keep: the sections stay those of f; otherwise they follow the new last  *)
(* record.                                                                 *)
(***************************************************************************)
WithRecords(f, records, keep) ==
    IF keep THEN [f EXCEPT !.contribs = records, !.n = Len(records)]
    ELSE FileFor(f.power, records)

ListOps(k) ==
    {[op |-> "drop", j |-> j] : j \in 1..k} \cup {[op |-> "dup", j |-> j] : j \in 1..k}
    \cup {[op |-> "swap", j |-> j] : j \in 1..(k - 1)}
    \cup {[op |-> "splice", j |-> j] : j \in 1..k} \cup {[op |-> "rotate", j |-> 1], [op |-> "reverse", j |-> 1]}

ApplyList(o, f, other) ==
    LET c == f.contribs
        k == Len(c)
    IN CASE o.op = "drop" -> SubSeq(c, 1, o.j - 1) \o SubSeq(c, o.j + 1, k)
         [] o.op = "dup" -> SubSeq(c, 1, o.j) \o SubSeq(c, o.j, k)
         [] o.op = "swap" -> [i \in 1..k |-> IF i = o.j THEN c[o.j + 1] ELSE IF i = o.j + 1 THEN c[o.j] ELSE c[i]]
         [] o.op = "splice" -> [i \in 1..k |-> IF i = o.j THEN other.contribs[i] ELSE c[i]]
         [] o.op = "rotate" -> Append(Tail(c), Head(c))
         [] o.op = "reverse" -> [i \in 1..k |-> c[k + 1 - i]]

(***************************************************************************)
(* Deviations of one field of one record of an honest file, nothing else   *)
(* (with the hash recomputed or not)                                       *)
(***************************************************************************)
Fields == {"tau1", "alpha1", "beta1", "tau2", "beta2"}
ApplyField(f, j, fld, how, reseal) ==
    LET r == f.contribs[j]
        r2 == [r EXCEPT ![fld] = Alter(how, @)]
    IN [f EXCEPT !.contribs[j] = IF reseal THEN Sealed(r2) ELSE r2]
KeyFields == {"s", "sx", "x"}
ApplyKeyField(f, j, p, fld, how, reseal) ==
    LET r == f.contribs[j]
        r2 == [r EXCEPT !.keys[p][fld] = Alter(how, @)]
    IN [f EXCEPT !.contribs[j] = IF reseal THEN Sealed(r2) ELSE r2]

(***************************************************************************)
(* Deviations in the sections                                              *)
(***************************************************************************)
PointHows == {"scale", "zero", "neg", "swap", "gen"}
ApplyPoint(f, sec, i, how) ==
    LET s == f[sec]
        v(j) == CASE how \in {"scale", "zero", "neg", "endo"} -> IF j = i THEN Alter(how, s[j]) ELSE s[j]
                  [] how = "gen" -> IF j = i THEN FOne ELSE s[j]
                  [] how = "swap" -> IF i = Len(s) THEN s[j] ELSE IF j = i THEN s[i + 1] ELSE IF j = i + 1 THEN s[i] ELSE s[j]
                  [] how = "tail" -> IF j >= i THEN FMul(s[j], ZZ) ELSE s[j]
                  [] how = "tailpow" -> IF j >= i THEN FMul(s[j], FPow(ZZ, j - i + 1)) ELSE s[j]
                  [] how = "repeat" -> IF j = i /\ i > 1 THEN s[j - 1] ELSE s[j]
                  [] how = "tailzero" -> IF j >= i THEN FZero ELSE s[j]
    IN [f EXCEPT ![sec] = [j \in DOMAIN s |-> v(j)]]
TailHows == {"tail", "tailpow", "repeat", "tailzero"}

(***************************************************************************)
(* Two deviations that cancel out in the verifier's linear combinations    *)
(* L1 = sum of w[k]*s[k], L2 = sum of w[k]*s[k+1], if its weights w were   *)
(* predictable.  Equal weights at two places (a draw used twice) allow     *)
(* them as well.                                                           *)
(***************************************************************************)
WeightHows == {"equal", "index", "index0", "doubling"}
Weight(how, k) == CASE how = "equal" -> FOne [] how = "index" -> FOfInt(k) [] how = "index0" -> FOfInt(k - 1) [] how = "doubling" -> FPow(FOfInt(2), k)
ApplyCancel(f, sec, i, j, how) ==
    LET s == f[sec]
        n == Len(s)
        x == IF sec = "tauG2" THEN f.contribs[f.n].tau1 ELSE f.contribs[f.n].tau2
        w(k) == IF k = n THEN FZero ELSE Weight(how, k)
        c(k) == FSub(Weight(how, k - 1), FMul(x, w(k)))      \* what an error at k adds to L2 - x*L1
    IN [f EXCEPT ![sec] = [k \in DOMAIN s |-> IF k = i THEN FAdd(s[k], FMul(ZZ, c(j))) ELSE IF k = j THEN FSub(s[k], FMul(ZZ, c(i))) ELSE s[k]]]

\* one section made with another tau, or shifted by one power, or of the wrong parameter
SectionHows == {"other", "shift", "base", "allzero", "neg", "endo"}
ApplySection(f, base, sec, how) ==
    LET s == f[sec]
        n == Len(s)
        r == f.contribs[f.n]
        t == r.tau1
        b == [tauG1 |-> FOne, alphaG1 |-> base.alpha1, betaG1 |-> base.beta1, tauG2 |-> FOne, betaG2 |-> base.beta2][sec]
    IN [f EXCEPT ![sec] = CASE how = "other" -> FGeom(s[1], FMul(t, ZZ), n)
                            [] how = "shift" -> FGeom(FMul(s[1], t), t, n)
                            [] how = "base" -> FGeom(b, base.tau1, n)
                            [] how \in {"neg", "endo"} -> [i \in DOMAIN s |-> Alter(how, s[i])]
                            [] how = "allzero" -> Constantly(n, FZero)]

\* several sections made consistently with another tau / alpha / beta than the last record says
ApplyAll(f, how) ==
    LET r == f.contribs[f.n]
        t == r.tau1  a == r.alpha1  b == r.beta1
        new == CASE how = "tau" -> FileOf(f.power, f.n, FMul(t, ZZ), FMul(t, ZZ), a, b, b, f.contribs)
                 [] how = "alpha" -> FileOf(f.power, f.n, t, t, FMul(a, ZZ), b, b, f.contribs)
                 [] how = "beta" -> FileOf(f.power, f.n, t, t, a, FMul(b, ZZ), FMul(b, ZZ), f.contribs)
                 [] how = "alphabeta" -> FileOf(f.power, f.n, t, t, b, a, a, f.contribs)
                 [] how = "negtau" -> FileOf(f.power, f.n, FNeg(t), FNeg(t), a, b, b, f.contribs)
                 [] how = "negalpha" -> FileOf(f.power, f.n, t, t, FNeg(a), b, b, f.contribs)
                 [] how = "negbeta" -> FileOf(f.power, f.n, t, t, a, FNeg(b), FNeg(b), f.contribs)
                 [] how = "endotau" -> FileOf(f.power, f.n, FMul(t, Endo), FMul(t, Endo), a, b, b, f.contribs)
                 [] how = "endoalpha" -> FileOf(f.power, f.n, t, t, FMul(a, Endo), b, b, f.contribs)
                 [] how = "endobeta" -> FileOf(f.power, f.n, t, t, a, FMul(b, Endo), FMul(b, Endo), f.contribs)
                 [] how = "taug1" -> FileOf(f.power, f.n, FMul(t, ZZ), t, a, b, b, f.contribs)
                 [] how = "taug2" -> FileOf(f.power, f.n, t, FMul(t, ZZ), a, b, b, f.contribs)
                 [] how = "previous" -> IF f.n = 1 THEN f
                                        ELSE LET q == f.contribs[f.n - 1] IN FileOf(f.power, f.n, q.tau1, q.tau1, q.alpha1, q.beta1, q.beta1, f.contribs)
    IN new
AllHows == {"tau", "alpha", "beta", "alphabeta", "taug1", "taug2", "previous",
            "negtau", "negalpha", "negbeta", "endotau", "endoalpha", "endobeta"}

Zeros(p) == [FileOf(p, 0, FZero, FZero, FZero, FZero, FZero, <<>>) EXCEPT !.n = 0]
=============================================================================
