-------------------------------- MODULE Gen2 --------------------------------
(***************************************************************************)
(* Phase 2 verification vectors for the real verifier: concrete files and  *)
(* origins with the verdict of the specification (spec -> code).           *)
(***************************************************************************)
EXTENDS Adversary2, Phase2Bytes, Json

Seed == EnvStr("ZK_SEED", "1")
Out == EnvStr("ZK_OUT", "/dev/null")
Deep == EnvStr("ZK_DEEP", "0") = "1"
GScalar(s) == IF s = "endo" THEN "b3c4d79d41a917585bfc41088d8daaa78b17ea66b99c90dd" ELSE BHashScalar(Seed \o "/2/" \o s)
GSecret(c, j) == [delta |-> GScalar(c \o ToString(j) \o "d"), s |-> GScalar(c \o ToString(j) \o "s")]
GBogus(r) == IF r = "c" THEN Sha("01") ELSE Sha("02")
GFlip(h, k) == FlipBit(h, IF k = 0 THEN 7 ELSE 255)

(***************************************************************************)
(* Origins: any circuit's dimensions with any elements                     *)
(***************************************************************************)
Rand(name, n) == [i \in 1..n |-> GScalar(name \o ToString(i))]
OriginOf(name, wires, public, committed, constraints, domain, d, z, pkk) ==
    [hdr |-> [wires |-> wires, witness |-> Len(pkk), public |-> public, committed |-> committed, constraints |-> constraints, domain |-> domain],
     n |-> 0, delta1 |-> d, delta2 |-> d, z |-> z, pkk |-> pkk, contribs |-> <<>>, form |-> <<>>]
Origins == [
    small    |-> OriginOf("small", 5, 2, 0, 3, 4, FOne, Rand("small.z", 3), Rand("small.k", 3)),
    commit   |-> OriginOf("commit", 9, 3, 2, 6, 8, FOne, Rand("commit.z", 7), Rand("commit.k", 4)),
    minimal  |-> OriginOf("minimal", 1, 1, 0, 1, 2, FOne, Rand("minimal.z", 1), <<>>),
    gaps     |-> OriginOf("gaps", 6, 1, 0, 4, 4, FOne, Rand("gaps.z", 3), [i \in 1..5 |-> IF i \in {1, 3, 5} THEN FZero ELSE GScalar("gaps.k" \o ToString(i))]),
    flat     |-> OriginOf("flat", 4, 2, 0, 2, 2, FOne, <<FZero>>, <<FZero, FZero>>),        \* tau = 1, wires without terms
    started  |-> OriginOf("started", 5, 2, 0, 3, 4, GScalar("started.d"), Rand("small.z", 3), Rand("small.k", 3)),
    wide     |-> OriginOf("wide", 70, 5, 0, 33, 64, FOne, Rand("wide.z", 63), Rand("wide.k", 65))]
Names == DOMAIN Origins

Shapes == IF Deep THEN (Names \X (1..4)) \ {<<"wide", 4>>} ELSE {<<"small", 3>>, <<"commit", 2>>, <<"minimal", 1>>, <<"gaps", 1>>, <<"flat", 2>>, <<"started", 2>>, <<"wide", 1>>}
Honest(sh) == HonestOn2(Origins[sh[1]], Chain2("h", sh[2]))
Other(sh) == HonestOn2(Origins[sh[1]], Chain2("o", sh[2]))
Few(sh) == sh[1] # "wide"
Positions(n) == IF n <= 8 THEN 1..n ELSE {1, 2, n \div 2, n - 1, n}

Pairs(n, how) == {q \in (1..n) \X (1..n) : q[1] < q[2] /\ (IF how = "equal" THEN n <= 8 \/ q[2] = q[1] + 1 \/ (q[1] + q[2] * 5) % 29 = 0
                                                     ELSE (q[2] = q[1] + 1 /\ q[1] % 4 = 1) \/ q = <<1, n>>)}

AlterHows == {"scale", "zero", "neg"} \cup (IF Deep THEN {"endo"} ELSE {})
Case(fam, sh, j, a, b, c) == [fam |-> fam, sh |-> sh, j |-> j, a |-> a, b |-> b, c |-> c]
RecordsOf(shapes) == {<<s, i>> \in shapes \X (1..4) : i <= s[2]}

Cases ==
    {Case("honest", <<o, k>>, 0, "", "", "") : o \in Names, k \in 1..(IF Deep THEN 6 ELSE 3)}
    \cup {Case("longchain", <<o, k>>, 0, "", "", "") : o \in {"small"}, k \in IF Deep THEN {63, 64, 65, 127, 128, 129, 255, 256, 257, 300} ELSE {129}}
    \cup {Case("nocontrib", <<o, 1>>, 0, "", "", "") : o \in Names}
    \cup UNION {{Case("dev", q[1], q[2], kd, "", "") : kd \in Devs2(q[2])} : q \in RecordsOf(Shapes)}
    \cup UNION {{Case("list", sh, o.j, o.op, keep, "") : o \in ListOps2(sh[2]), keep \in {"keep", "follow"}} : sh \in Shapes}
    \cup UNION {{Case("field", q[1], q[2], fld, how, rs) : fld \in RecFields2, how \in AlterHows, rs \in {"sealed", "unsealed"}} : q \in RecordsOf(Shapes)}
    \cup UNION {UNION {{Case("point", sh, i, sec, how, "") : i \in Positions(Len(Origins[sh[1]][sec])), how \in PointHows2} : sec \in {"z", "pkk"}} : sh \in Shapes}
    \cup UNION {UNION {UNION {{Case("cancel", sh, q[1] * 1000 + q[2], sec, how, "") : q \in Pairs(Len(Origins[sh[1]][sec]), how)} : how \in WeightHows2} : sec \in {"z", "pkk"}} : sh \in Shapes}
    \cup UNION {{Case("params", sh, 0, how, "", "") : how \in ParamHows \ (IF Origins[sh[1]].pkk = <<>> THEN {"swapzpkk"} ELSE {})} : sh \in Shapes}
    \cup {Case("count", sh, 0, how, kp, "") : sh \in Shapes, how \in {"plus", "minus", "zero", "negative"}, kp \in {"as is", "no records", "void"}}
    \cup {Case("header", sh, d, h, "", "") : sh \in {s \in Shapes : Few(s)}, h \in HeaderFields, d \in {0 - 1, 1}}
    \cup {Case("shape", sh, 0, how, "", "") : sh \in {s \in Shapes : Few(s)}, how \in {"longer pkk", "shorter pkk", "longer z", "shorter z", "resplit"}}
    \cup {Case("origin", sh, 0, o, "", "") : sh \in Shapes, o \in Names}
    \cup UNION {{Case("form", sh, 1, at, kd, "") : at \in {"delta1", "delta2"}, kd \in {"offcurve", "offgroup"}} : sh \in Shapes}
    \cup UNION {UNION {{Case("form", sh, i, sec, "offcurve", "") : i \in Positions(Len(Origins[sh[1]][sec]))} : sec \in {"z", "pkk"}} : sh \in Shapes}
    \cup UNION {{Case("recform", q[1], q[2], fld, "offcurve", "") : fld \in DOMAIN RecordLayout2} \cup {Case("recform", q[1], q[2], "spx", "offgroup", "")} : q \in RecordsOf(Shapes)}

OriginGiven(c) == IF c.fam = "origin" THEN c.a ELSE c.sh[1]

Build(c) ==
    LET o == Origins[c.sh[1]]
        k == c.sh[2]
        h == Honest(c.sh)
    IN CASE c.fam \in {"honest", "longchain", "origin"} -> h
         [] c.fam = "nocontrib" -> o
         [] c.fam = "dev" -> DevFile2(o, Chain2("h", k), c.j, c.a)
         [] c.fam = "list" -> WithRecords2(h, o, ApplyList2([op |-> c.a, j |-> c.j], h, Other(c.sh)), c.b = "keep")
         [] c.fam = "field" -> ApplyRecField2(h, c.j, c.a, c.b, c.c = "sealed")
         [] c.fam = "point" -> ApplyPoint2(h, o, c.a, c.j, c.b)
         [] c.fam = "cancel" -> ApplyCancel2(h, c.a, c.j \div 1000, c.j % 1000, c.b)
         [] c.fam = "params" -> ApplyParams(h, o, c.a)
         [] c.fam = "count" ->
              LET n == CASE c.a = "plus" -> h.n + 1 [] c.a = "minus" -> h.n - 1 [] c.a = "zero" -> 0 [] c.a = "negative" -> 0 - 1
              IN (CASE c.b = "as is" -> [h EXCEPT !.n = n]
                   [] c.b = "no records" -> [o EXCEPT !.n = n]
                   [] c.b = "void" -> [ApplyParams(o, o, "d0") EXCEPT !.n = n])      \* everything at infinity
         [] c.fam = "header" -> [h EXCEPT !.hdr[c.a] = @ + c.j]
         [] c.fam = "shape" ->
              (CASE c.a = "longer pkk" -> [h EXCEPT !.pkk = Append(@, FZero), !.hdr.witness = @ + 1]
                [] c.a = "shorter pkk" -> [h EXCEPT !.pkk = SubSeq(@, 1, Len(@) - 1), !.hdr.witness = @ - 1]
                [] c.a = "longer z" -> [h EXCEPT !.z = Append(@, FZero), !.hdr.domain = @ + 1]
                [] c.a = "shorter z" -> [h EXCEPT !.z = SubSeq(@, 1, Len(@) - 1), !.hdr.domain = @ - 1]
                [] c.a = "resplit" -> [h EXCEPT !.hdr.domain = @ - 1, !.hdr.witness = @ + 1, !.z = SubSeq(@, 1, Len(@) - 1), !.pkk = <<h.z[Len(h.z)]>> \o @])
         [] c.fam = "form" -> [h EXCEPT !.form = <<[at |-> c.a, i |-> c.j, kind |-> c.b]>>]
         [] c.fam = "recform" -> [h EXCEPT !.form = <<[at |-> "rec", i |-> c.j, fld |-> c.a, kind |-> c.b]>>]

\* a count above the records present reads past the end of the file; a header promising other lengths is rejected before
Property(c) == CASE c.fam \in {"honest", "longchain"} -> "C09"
                 [] c.fam \in {"point", "cancel", "params", "header", "shape", "origin", "form"} -> "C10"
                 [] OTHER -> "C11"

VARIABLES case, done
vars == <<case, done>>
\* only the cases of one property, unless all are wanted
Want == EnvStr("ZK_WANT", "")
Init == case \in {c \in Cases : Want = "" \/ Property(c) = Want} /\ done = FALSE
Meaningful(c) == ~(c.fam = "shape" /\ c.a = "shorter pkk" /\ Origins[c.sh[1]].pkk = <<>>)
                 /\ ~(c.fam = "list" /\ c.sh[2] = 1 /\ c.a \in {"swap", "drop"} /\ c.b = "follow")

Emit(c) ==
    LET f == Build(c)
        o == Origins[OriginGiven(c)]
        fails == Failing2(f, o)
        id == c.fam \o "/" \o ToString(c.sh) \o "/" \o ToString(c.j) \o "/" \o c.a \o "/" \o c.b \o "/" \o c.c
    IN /\ Assert((fails = {}) = WellFormed2(f, o), <<"verdict and meaning differ", id, fails>>)
       /\ EmitLine(Out, id, ToJson([id |-> id, fam |-> c.fam, kind |-> c.a, property |-> Property(c),
                                    origin |-> OriginGiven(c), accept |-> fails = {}, fails |-> SetToSeq(fails),
                                    bytes |-> FileBytes2(f)]))

Next == ~done /\ Meaningful(case) /\ Emit(case) /\ done' = TRUE /\ UNCHANGED case
Bases == \A o \in Names : EmitLine(Out \o ".bases", o, ToJson([name |-> o, bytes |-> FileBytes2(Origins[o])]))
ASSUME Bases
=============================================================================
