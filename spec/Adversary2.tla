----------------------------- MODULE Adversary2 -----------------------------
(* Phase 2 files nobody should accept, as Adversary1.tla for phase 1.      *)
EXTENDS Phase2

CONSTANTS Scalar(_), Secret2(_, _), BogusHash(_), FlipHash(_, _)

ZZ == Scalar("z")
Endo == Scalar("endo")
Alter(how, x) == CASE how = "scale" -> FMul(x, ZZ) [] how = "zero" -> FZero [] how = "neg" -> FNeg(x) [] how = "endo" -> FMul(x, Endo)
Chain2(c, k) == [j \in 1..k |-> Secret2(c, j)]

RECURSIVE HonestOn2(_, _)
HonestOn2(f, secs) == IF secs = <<>> THEN f ELSE HonestOn2(Contribute2(f, Head(secs)), Tail(secs))

RecordKinds2 == {"pok", "upd", "noS", "zero", "one", "challenge", "nochallenge", "dst", "spx0", "replay", "swapkeys",
                 "negS", "scaledS", "hash", "hash0", "hash31", "oldhash",
                 "keep", "neg", "endo", "inverse", "square", "fork", "base", "oldchallenge"}
Devs2(j) == RecordKinds2 \ ((IF j = 1 THEN {"replay", "nochallenge", "oldhash", "base"} ELSE {}) \cup (IF j <= 2 THEN {"fork", "oldchallenge"} ELSE {}))

\* old: <<delta, hash>> of the record before the previous one, base: delta of the origin
DevRecord2(kd, sec, prev, prevHash, prevKey, old, base) ==
    LET x == sec.delta  s == sec.s
        hon == [delta |-> FMul(prev, x), key |-> Key(s, x, prevHash, 1), hash |-> NoHash]
        r == CASE kd = "pok"  -> [hon EXCEPT !.key = KeyFor(s, FMul(s, ZZ), x, prevHash, 1)]
               [] kd = "upd"  -> [hon EXCEPT !.delta = FMul(prev, ZZ)]
               [] kd = "noS"  -> [hon EXCEPT !.key = KeyFor(FZero, FZero, x, prevHash, 1)]
               [] kd = "zero" -> [hon EXCEPT !.delta = FZero, !.key = Key(s, FZero, prevHash, 1)]
               [] kd = "one"  -> [hon EXCEPT !.delta = prev, !.key = Key(s, FOne, prevHash, 1)]
               [] kd = "challenge" -> [hon EXCEPT !.key = Key(s, x, BogusHash("c"), 1)]
               [] kd = "nochallenge" -> [hon EXCEPT !.key = Key(s, x, NoHash, 1)]
               [] kd = "dst"  -> [hon EXCEPT !.key = Key(s, x, prevHash, 2)]
               [] kd = "spx0" -> [hon EXCEPT !.key = KeyFor(s, FMul(s, x), FZero, prevHash, 1)]
               [] kd = "replay" -> [hon EXCEPT !.delta = FMul(prev, SecretOf(prevKey)), !.key = prevKey]
               [] kd = "swapkeys" -> [hon EXCEPT !.key = KeyFor(FMul(s, x), s, x, prevHash, 1)]
               [] kd = "negS" -> [hon EXCEPT !.key.s = FNeg(@), !.key.sx = FNeg(@)]
               [] kd = "scaledS" -> [hon EXCEPT !.key.s = FMul(@, ZZ), !.key.sx = FMul(@, ZZ)]
               [] kd = "keep" -> [hon EXCEPT !.delta = prev]
               [] kd = "neg"  -> [hon EXCEPT !.delta = FNeg(@)]
               [] kd = "endo" -> [hon EXCEPT !.delta = FMul(@, Endo)]
               [] kd = "inverse" -> [hon EXCEPT !.delta = FDiv(prev, x)]
               [] kd = "square" -> [hon EXCEPT !.delta = FMul(@, x)]
               [] kd = "fork" -> [hon EXCEPT !.delta = FMul(old[1], x)]
               [] kd = "base" -> [hon EXCEPT !.delta = FMul(base, x)]
               [] kd = "oldchallenge" -> [hon EXCEPT !.key = Key(s, x, old[2], 1)]
               [] OTHER -> hon
        q == Sealed2(r)
    IN CASE kd = "hash" -> [q EXCEPT !.hash = BogusHash("h")]
         [] kd = "hash0" -> [q EXCEPT !.hash = FlipHash(@, 0)]
         [] kd = "hash31" -> [q EXCEPT !.hash = FlipHash(@, 1)]
         [] kd = "oldhash" -> [q EXCEPT !.hash = prevHash]
         [] OTHER -> q

RECURSIVE DevRecords2(_, _, _, _, _)
DevRecords2(secs, o, done, at, kd) ==
    LET j == Len(done) + 1
        first == j = 1
    IN IF j > Len(secs) THEN done
       ELSE DevRecords2(secs, o, Append(done,
                DevRecord2(IF j = at THEN kd ELSE "none", secs[j], IF first THEN o.delta1 ELSE done[j - 1].delta,
                           IF first THEN NoHash ELSE done[j - 1].hash, IF first THEN Key(FOne, FOne, NoHash, 1) ELSE done[j - 1].key,
                           IF j <= 2 THEN <<o.delta1, NoHash>> ELSE <<done[j - 2].delta, done[j - 2].hash>>, o.delta1)), at, kd)

\* o updated by the factor d, with these records
DeltaFile(o, d, records) ==
    [o EXCEPT !.n = Len(records), !.delta1 = FMul(@, d), !.delta2 = FMul(@, d),
              !.z = Scaled(@, FInv(d)), !.pkk = Scaled(@, FInv(d)), !.contribs = records]
FileFor2(o, records) == DeltaFile(o, FDiv(records[Len(records)].delta, o.delta1), records)

DevFile2(o, secs, at, kd) == FileFor2(o, DevRecords2(secs, o, <<>>, at, kd))

ListOps2(k) ==
    {[op |-> "drop", j |-> j] : j \in 1..k} \cup {[op |-> "dup", j |-> j] : j \in 1..k}
    \cup {[op |-> "swap", j |-> j] : j \in 1..(k - 1)}
    \cup {[op |-> "splice", j |-> j] : j \in 1..k} \cup {[op |-> "reverse", j |-> 1]}
ApplyList2(o, f, other) ==
    LET c == f.contribs
        k == Len(c)
    IN CASE o.op = "drop" -> SubSeq(c, 1, o.j - 1) \o SubSeq(c, o.j + 1, k)
         [] o.op = "dup" -> SubSeq(c, 1, o.j) \o SubSeq(c, o.j, k)
         [] o.op = "swap" -> [i \in 1..k |-> IF i = o.j THEN c[o.j + 1] ELSE IF i = o.j + 1 THEN c[o.j] ELSE c[i]]
         [] o.op = "splice" -> [i \in 1..k |-> IF i = o.j THEN other.contribs[i] ELSE c[i]]
         [] o.op = "reverse" -> [i \in 1..k |-> c[k + 1 - i]]
WithRecords2(f, o, records, keep) ==
    IF keep \/ records = <<>> THEN [f EXCEPT !.contribs = records, !.n = Len(records)] ELSE FileFor2(o, records)

ApplyRecField2(f, j, fld, how, reseal) ==
    LET r == f.contribs[j]
        r2 == IF fld = "delta" THEN [r EXCEPT !.delta = Alter(how, @)] ELSE [r EXCEPT !.key[fld] = Alter(how, @)]
    IN [f EXCEPT !.contribs[j] = IF reseal THEN Sealed2(r2) ELSE r2]
RecFields2 == {"delta", "s", "sx", "x"}

PointHows2 == {"scale", "zero", "neg", "endo", "swap", "tail", "repeat", "unchanged", "add"}
ApplyPoint2(f, o, sec, i, how) ==
    LET s == f[sec]
        v(j) == CASE how \in {"scale", "zero", "neg", "endo"} -> IF j = i THEN Alter(how, s[j]) ELSE s[j]
                  [] how = "add" -> IF j = i THEN FAdd(s[j], ZZ) ELSE s[j]
                  [] how = "swap" -> IF i = Len(s) THEN s[j] ELSE IF j = i THEN s[i + 1] ELSE IF j = i + 1 THEN s[i] ELSE s[j]
                  [] how = "tail" -> IF j >= i THEN FMul(s[j], ZZ) ELSE s[j]
                  [] how = "repeat" -> IF j = i /\ i > 1 THEN s[j - 1] ELSE s[j]
                  [] how = "unchanged" -> IF j = i THEN o[sec][j] ELSE s[j]
    IN [f EXCEPT ![sec] = [j \in DOMAIN s |-> v(j)]]

\* two deviations that cancel out in a combination whose weights are predictable or used twice
WeightHows2 == {"equal", "index", "index0", "doubling"}
Weight2(how, k) == CASE how = "equal" -> FOne [] how = "index" -> FOfInt(k) [] how = "index0" -> FOfInt(k - 1) [] how = "doubling" -> FPow(FOfInt(2), k)
ApplyCancel2(f, sec, i, j, how) ==
    [f EXCEPT ![sec] = [k \in DOMAIN @ |-> IF k = i THEN FAdd(@[k], FMul(ZZ, Weight2(how, j))) ELSE IF k = j THEN FSub(@[k], FMul(ZZ, Weight2(how, i))) ELSE @[k]]]

\* the parameters as a whole
ParamHows == {"d1", "d2", "d1d2", "zscale", "pkkscale", "zall0", "pkkall0", "zorigin", "pkkorigin", "origin", "final", "finald", "inverse", "swapzpkk", "d0",
              "neg", "endo", "negd1", "negd2", "endod1", "endod2", "negz", "negpkk", "endoz", "endopkk"}
ApplyParams(f, o, how) ==
    LET d == FDiv(f.delta1, o.delta1)
    IN CASE how = "d1" -> [f EXCEPT !.delta1 = FMul(@, ZZ)]
         [] how = "d2" -> [f EXCEPT !.delta2 = FMul(@, ZZ)]
         [] how = "d1d2" -> [f EXCEPT !.delta1 = FMul(@, ZZ), !.delta2 = FMul(@, ZZ)]
         [] how = "zscale" -> [f EXCEPT !.z = Scaled(@, ZZ)]
         [] how = "pkkscale" -> [f EXCEPT !.pkk = Scaled(@, ZZ)]
         [] how = "zall0" -> [f EXCEPT !.z = Scaled(@, FZero)]
         [] how = "pkkall0" -> [f EXCEPT !.pkk = Scaled(@, FZero)]
         [] how = "zorigin" -> [f EXCEPT !.z = o.z]
         [] how = "pkkorigin" -> [f EXCEPT !.pkk = o.pkk]
         [] how = "origin" -> [f EXCEPT !.delta1 = o.delta1, !.delta2 = o.delta2, !.z = o.z, !.pkk = o.pkk]
         [] how = "final" -> DeltaFile(o, FMul(d, ZZ), f.contribs)           \* only the last comparison fails
         [] how = "neg" -> DeltaFile(o, FNeg(d), f.contribs)
         [] how = "endo" -> DeltaFile(o, FMul(d, Endo), f.contribs)
         [] how = "negd1" -> [f EXCEPT !.delta1 = FNeg(@)]
         [] how = "negd2" -> [f EXCEPT !.delta2 = FNeg(@)]
         [] how = "endod1" -> [f EXCEPT !.delta1 = FMul(@, Endo)]
         [] how = "endod2" -> [f EXCEPT !.delta2 = FMul(@, Endo)]
         [] how = "negz" -> [f EXCEPT !.z = [i \in DOMAIN @ |-> FNeg(@[i])]]
         [] how = "negpkk" -> [f EXCEPT !.pkk = [i \in DOMAIN @ |-> FNeg(@[i])]]
         [] how = "endoz" -> [f EXCEPT !.z = Scaled(@, Endo)]
         [] how = "endopkk" -> [f EXCEPT !.pkk = Scaled(@, Endo)]
         [] how = "finald" -> [DeltaFile(o, d, f.contribs) EXCEPT !.delta2 = FMul(@, ZZ), !.z = Scaled(@, FInv(ZZ)), !.pkk = Scaled(@, FInv(ZZ))] \* only delta12
         [] how = "inverse" -> [f EXCEPT !.z = Scaled(o.z, d), !.pkk = Scaled(o.pkk, d)]
         [] how = "swapzpkk" -> [f EXCEPT !.z[1] = f.pkk[1], !.pkk[1] = f.z[1]]
         [] how = "d0" -> [f EXCEPT !.delta1 = FZero, !.delta2 = FZero]
=============================================================================
