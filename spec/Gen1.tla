-------------------------------- MODULE Gen1 --------------------------------
(***************************************************************************)
(* Phase 1 verification vectors for the real verifier: concrete files with *)
(* the verdict of the specification (spec -> code).                        *)
(***************************************************************************)
EXTENDS Adversary1, Phase1Bytes, Json, TLC

Seed == EnvStr("ZK_SEED", "1")
Out == EnvStr("ZK_OUT", "/dev/null")
Deep == EnvStr("ZK_DEEP", "0") = "1"
GScalar(s) == IF s = "endo" THEN "b3c4d79d41a917585bfc41088d8daaa78b17ea66b99c90dd" ELSE BHashScalar(Seed \o "/" \o s)
GSecret(c, j) == LET x(w) == GScalar(c \o ToString(j) \o w)
                 IN [tau |-> x("t"), alpha |-> x("a"), beta |-> x("b"), sTau |-> x("st"), sAlpha |-> x("sa"), sBeta |-> x("sb")]
GBogus(r) == IF r = "c" THEN Sha("01") ELSE Sha("02")
GFlip(h, k) == FlipBit(h, IF k = 0 THEN 7 ELSE 255)    \* last bit of the first byte, of the last byte

Converted(p) == LET t == GScalar("pt")  a == GScalar("pa")  b == GScalar("pb") IN FileOf(p, 0, t, t, a, b, b, <<>>)

\* the shapes: power, number of contributions, starting point
Shapes == IF Deep THEN {<<p, k, b>> : p \in 1..4, k \in 1..5, b \in {0, 1}} ELSE {<<2, 3, 0>>, <<1, 2, 1>>, <<3, 1, 0>>}
SectionShapes == IF Deep THEN Shapes \cup {<<5, 1, 0>>, <<6, 2, 1>>} ELSE {<<2, 2, 0>>, <<3, 1, 1>>, <<1, 1, 0>>, <<1, 3, 1>>}

BaseFile(p, b) == IF b = 0 THEN Initialize(p) ELSE Converted(p)
Honest(sh) == HonestOn(BaseFile(sh[1], sh[3]), Chain("h", sh[2]))
Other(sh) == HonestOn(BaseFile(sh[1], sh[3]), Chain("o", sh[2]))

CancelShapes == IF Deep THEN {<<2, 2, 0>>, <<3, 1, 1>>, <<4, 1, 0>>, <<6, 1, 0>>} ELSE {<<2, 2, 0>>, <<3, 1, 1>>, <<5, 1, 0>>}
\* places 2..n of two deviations (the first element is anchored): all for the short sections, neighbours and distant ones for the long ones
Pairs(n, how, p) == {q \in (2..n) \X (2..n) : q[1] < q[2] /\ (IF how = "equal" THEN p <= 3 \/ q[2] = q[1] + 1 \/ (q[1] + q[2] * 5) % 17 = 0
                                                        ELSE (q[2] = q[1] + 1 /\ q[1] % 4 = 2) \/ q = <<2, n>>)}

AlterHows == {"scale", "zero", "neg"} \cup (IF Deep THEN {"endo"} ELSE {})
Case(fam, sh, j, a, b, c) == [fam |-> fam, sh |-> sh, j |-> j, a |-> a, b |-> b, c |-> c]

Cases ==
    {Case("honest", <<p, k, b>>, 0, "", "", "") : p \in 1..(IF Deep THEN 6 ELSE 4), k \in 1..(IF Deep THEN 6 ELSE 3), b \in {0, 1}}
    \cup {Case("longchain", <<1, k, 0>>, 0, "", "", "") : k \in IF Deep THEN {255, 256, 257, 300} ELSE {257}}
    \cup {Case("empty", <<p, 1, 0>>, 0, "", "", "") : p \in 1..3}
    \cup {Case("nocontrib", <<p, 1, b>>, 0, "", "", "") : p \in 1..2, b \in {0, 1}}
    \cup UNION {{Case("dev", sh, j, d.kind, d.p, "") : d \in Devs(j)} : <<sh, j>> \in {<<s, i>> \in Shapes \X (1..6) : i <= s[2]}}
    \cup UNION {{Case("list", sh, o.j, o.op, keep, "") : o \in ListOps(sh[2]), keep \in {"keep", "follow"}} : sh \in Shapes}
    \cup UNION {{Case("field", sh, j, fld, how, rs) : fld \in Fields, how \in AlterHows, rs \in {"sealed", "unsealed"}} :
                   <<sh, j>> \in {<<s, i>> \in Shapes \X (1..6) : i <= s[2]}}
    \cup UNION {{Case("key", sh, j, p \o "." \o fld, how, rs) : p \in Params, fld \in KeyFields, how \in AlterHows, rs \in {"sealed", "unsealed"}} :
                   <<sh, j>> \in {<<s, i>> \in Shapes \X (1..6) : i <= s[2] /\ (Deep \/ s[2] > 1)}}
    \cup UNION {UNION {{Case("point", sh, i, sec, how, "") : i \in 1..SectionLen(sec, sh[1]), how \in PointHows \cup (IF Deep THEN {"endo"} ELSE {})} : sec \in {Sections[q] : q \in 1..5}} : sh \in SectionShapes}
    \cup UNION {UNION {{Case("point", sh, i, sec, how, "") : i \in 2..SectionLen(sec, sh[1]), how \in TailHows} : sec \in {Sections[q] : q \in 1..4}} : sh \in SectionShapes}
    \cup UNION {UNION {UNION {{Case("cancel", sh, q[1] * 1000 + q[2], sec, how, "") : q \in Pairs(SectionLen(sec, sh[1]), how, sh[1])} : how \in WeightHows} : sec \in {Sections[q] : q \in 1..4}} : sh \in CancelShapes}
    \cup {Case("section", sh, 0, Sections[q], how, "") : sh \in SectionShapes, q \in 1..5, how \in SectionHows}
    \cup {Case("scale", sh, 0, Sections[q], "", "") : sh \in SectionShapes, q \in 1..5}
    \cup {Case("all", sh, 0, how, "", "") : sh \in SectionShapes, how \in AllHows}
    \cup {Case("base", sh, 0, "", "", "") : sh \in Shapes}
    \cup {Case("count", sh, 0, how, "", "") : sh \in Shapes, how \in {"plus", "minus", "zero", "max"}}
    \cup UNION {UNION {{Case("form", sh, i, sec, kd, "") : i \in {1, 2, SectionLen(sec, sh[1])}, kd \in {"offcurve", "uncompressed"} \cup (IF IsG2(sec) THEN {"offgroup"} ELSE {})}
                        : sec \in {Sections[q] : q \in 1..4}} : sh \in SectionShapes}
    \cup {Case("form", sh, 1, "betaG2", kd, "") : sh \in SectionShapes, kd \in {"offcurve", "uncompressed", "offgroup"}}
    \cup {Case("form", sh, 0, "tauG1", "uncompressed", "all") : sh \in SectionShapes}
    \cup UNION {{Case("recform", sh, j, fld, kd, "") : fld \in DOMAIN RecordLayout, kd \in {"offcurve"}}
                \cup {Case("recform", sh, j, fld, "offgroup", "") : fld \in RecordG2} : <<sh, j>> \in {<<s, i>> \in SectionShapes \X (1..6) : i <= s[2]}}

\* <<file, base>>
Build(c) ==
    LET p == c.sh[1]
        k == c.sh[2]
        bf == BaseFile(p, c.sh[3])
        base == BaseOf(bf)
        h == Honest(c.sh)
        f == CASE c.fam \in {"honest", "longchain", "base"} -> h
               [] c.fam = "empty" -> Zeros(p)
               [] c.fam = "nocontrib" -> bf
               [] c.fam = "dev" -> DevFile(p, base, Chain("h", k), c.j, [kind |-> c.a, p |-> c.b])
               [] c.fam = "list" -> LET rs == ApplyList([op |-> c.a, j |-> c.j], h, Other(c.sh))
                                    IN WithRecords(h, rs, c.b = "keep" \/ rs = <<>>)
               [] c.fam = "field" -> ApplyField(h, c.j, c.a, c.b, c.c = "sealed")
               [] c.fam = "key" -> LET q == CHOOSE q \in Params \X KeyFields : q[1] \o "." \o q[2] = c.a
                                   IN ApplyKeyField(h, c.j, q[1], q[2], c.b, c.c = "sealed")
               [] c.fam = "point" -> ApplyPoint(h, c.a, c.j, c.b)
               [] c.fam = "section" -> ApplySection(h, base, c.a, c.b)
               [] c.fam = "cancel" -> ApplyCancel(h, c.a, c.j \div 1000, c.j % 1000, c.b)
               [] c.fam = "scale" -> [h EXCEPT ![c.a] = Scaled(@, ZZ)]
               [] c.fam = "all" -> ApplyAll(h, c.a)
               [] c.fam = "count" -> [h EXCEPT !.n = CASE c.a = "plus" -> @ + 1 [] c.a = "minus" -> @ - 1 [] c.a = "zero" -> 0 [] c.a = "max" -> 65535]
               [] c.fam = "form" -> [h EXCEPT !.form = <<[at |-> c.a, i |-> IF c.j = 0 THEN 1 ELSE c.j, kind |-> c.b]>>]
               [] c.fam = "recform" -> [h EXCEPT !.form = <<[at |-> "rec", i |-> c.j, fld |-> c.a, kind |-> c.b]>>]
    IN f

\* the verifier is given no starting point (0) or the converted file (1)
BaseGiven(c) == IF c.fam = "base" THEN 1 - c.sh[3] ELSE c.sh[3]
BaseFor(c) == BaseOf(BaseFile(c.sh[1], BaseGiven(c)))

Property(c, ok) == IF c.fam \in {"honest", "longchain"} THEN "C01"
                   ELSE IF c.fam \in {"point", "cancel", "section", "scale", "all", "form"} THEN "C03"
                   ELSE IF c.fam = "empty" THEN "C03" ELSE "C04"

VARIABLES case, done
vars == <<case, done>>
\* only the cases of one property, unless all are wanted
Want == EnvStr("ZK_WANT", "")
Init == case \in {c \in Cases : Want = "" \/ Property(c, TRUE) = Want} /\ done = FALSE

Emit(c) ==
    LET f == Build(c)
        base == BaseFor(c)
        fails == Failing(f, base)
        id == c.fam \o "/" \o ToString(c.sh) \o "/" \o ToString(c.j) \o "/" \o c.a \o "/" \o c.b \o "/" \o c.c
    IN /\ Assert((fails = {}) = WellFormed(f, base), <<"verdict and meaning differ", id, fails>>)
       /\ EmitLine(Out, id, ToJson([id |-> id, fam |-> c.fam, kind |-> c.a, property |-> Property(c, fails = {}),
                                    power |-> f.power, base |-> BaseGiven(c), accept |-> fails = {}, fails |-> SetToSeq(fails),
                                    bytes |-> FileBytes(f)]))

Next == ~done /\ Emit(case) /\ done' = TRUE /\ UNCHANGED case
Bases == \A p \in 1..6 : EmitLine(Out \o ".bases", ToString(p), ToJson([power |-> p, bytes |-> FileBytes(Converted(p))]))
ASSUME Bases
=============================================================================
