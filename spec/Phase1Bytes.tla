---------------------------- MODULE Phase1Bytes ----------------------------
(* The encoding of phase 1 files (docs/Format.md), over the BN254 field.   *)
EXTENDS Phase1, KeyEncoding

RecordPoints(r) == Cat(<<G1C(<<r.tau1, r.alpha1, r.beta1>>), G2C(<<r.tau2, r.beta2>>),
                         KeyBytes(r.keys.tau), KeyBytes(r.keys.alpha), KeyBytes(r.keys.beta)>>)
RecordHash(r) == Sha(RecordPoints(r))     \* Hash1
RecordBytes(r) == Cat(<<RecordPoints(r), r.hash>>)
RecordSize == 640

IsG2(sec) == sec \in {"tauG2", "betaG2"}
Points(sec, s) == IF s = <<>> THEN "" ELSE IF IsG2(sec) THEN G2C(s) ELSE G1C(s)
SectionBytes(f, sec) ==
    LET bad == SelectSeq(f.form, LAMBDA m : m.at = sec)
        s == f[sec]
        m == bad[1]
        special == CASE m.kind = "offcurve" -> IF IsG2(sec) THEN OffCurve2(m.i) ELSE OffCurve1(m.i)
                     [] m.kind = "offgroup" -> OffGroup2(m.i)
                     [] m.kind = "uncompressed" -> IF IsG2(sec) THEN G2U(<<s[m.i]>>) ELSE G1U(<<s[m.i]>>)
    IN IF bad = <<>> THEN Points(sec, s)
       ELSE Cat(<<Points(sec, SubSeq(s, 1, m.i - 1)), special, Points(sec, SubSeq(s, m.i + 1, Len(s)))>>)

HeaderBytes(f) == Cat(<<UInt(f.power, 1), UInt(f.n, 2)>>)

\* offset and group of the points of a record
RecordLayout == [tau1 |-> 0, alpha1 |-> 32, beta1 |-> 64, tau2 |-> 96, beta2 |-> 160,
                 tauS |-> 224, tauSX |-> 256, tauSPX |-> 288, alphaS |-> 352, alphaSX |-> 384, alphaSPX |-> 416,
                 betaS |-> 480, betaSX |-> 512, betaSPX |-> 544]
RecordG2 == {"tau2", "beta2", "tauSPX", "alphaSPX", "betaSPX"}
MalformedRecord(r, m) ==
    LET b == RecordPoints(r)
        o == RecordLayout[m.fld]
        w == IF m.fld \in RecordG2 THEN 64 ELSE 32
        special == CASE m.kind = "offcurve" -> IF m.fld \in RecordG2 THEN OffCurve2(m.i) ELSE OffCurve1(m.i)
                     [] m.kind = "offgroup" -> OffGroup2(m.i)
        nb == Cat(<<Slice(b, 0, o), special, Slice(b, o + w, 608 - o - w)>>)
    IN Cat(<<nb, Sha(nb)>>)
RecordsBytes(f) ==
    Cat([j \in 1..Len(f.contribs) |->
            LET bad == SelectSeq(f.form, LAMBDA m : m.at = "rec" /\ m.i = j)
            IN IF bad = <<>> THEN RecordBytes(f.contribs[j]) ELSE MalformedRecord(f.contribs[j], bad[1])])

FileBytes(f) == Cat(<<HeaderBytes(f), SectionBytes(f, "tauG1"), SectionBytes(f, "alphaG1"), SectionBytes(f, "betaG1"),
                      SectionBytes(f, "tauG2"), SectionBytes(f, "betaG2"), RecordsBytes(f)>>)

ParamsSize(p) == 32*(4*N(p) - 1) + 64*(N(p) + 1)

\* where the sections begin, in units of a point of G1 (points of G2 take two), after the header; and in a Powers of Tau file
PpotSections == <<"tauG1", "tauG2", "alphaG1", "betaG1", "betaG2">>
SectionUnits(sec, p) == IF IsG2(sec) THEN 2*SectionLen(sec, p) ELSE SectionLen(sec, p)
RECURSIVE UnitsBefore(_, _, _)
UnitsBefore(order, k, p) == IF k = 1 THEN 0 ELSE UnitsBefore(order, k - 1, p) + SectionUnits(order[k - 1], p)

\* the same of a file of power f.power of which only the beginnings of the sections are known
Unit1 == 32
Pieces(f) == [head |-> HeaderBytes(f), unit |-> Unit1, units |-> UnitsBefore(Sections, 6, f.power),
              pieces |-> [k \in 1..5 |-> [at |-> UnitsBefore(Sections, k, f.power), bytes |-> Points(Sections[k], f[Sections[k]])]]]

\* a Powers of Tau challenge file: 64 bytes of hash, then uncompressed sections
ChallengeBytes(f) == Cat(<<Sha("00"), Sha("01"), G1U(f.tauG1), G2U(f.tauG2), G1U(f.alphaG1), G1U(f.betaG1), G2U(f.betaG2)>>)
UnitPpot == 64
ChallengePieces(f) == [head |-> Cat(<<Sha("00"), Sha("01")>>), unit |-> UnitPpot, units |-> UnitsBefore(PpotSections, 6, f.power),
                       pieces |-> [k \in 1..5 |-> LET s == PpotSections[k] IN [at |-> UnitsBefore(PpotSections, k, f.power),
                                                                               bytes |-> IF IsG2(s) THEN G2U(f[s]) ELSE G1U(f[s])]]]
=============================================================================
