---------------------------- MODULE Phase2Bytes ----------------------------
(* The encoding of phase 2 files (docs/Format.md), over the BN254 field.   *)
EXTENDS Phase2, KeyEncoding, TLC

(***************************************************************************)
(* The header is a gob: a message describing the type, then the value.     *)
(***************************************************************************)
\* struct Header {Wires Witness Public PrivateCommitted Constraints Domain Contributions int}, type id 98
HeaderType == "77ffc30301010648656164657201ffc40001070105576972657301040001075769746e65737301040001065075626c6963010400011050726976617465436f6d6d6974746564010400010b436f6e73747261696e74730104000106446f6d61696e010400010d436f6e747269627574696f6e730104000000"
GobUInt(x) == IF x < 128 THEN UInt(x, 1)
              ELSE IF x < 256 THEN Cat(<<"ff", UInt(x, 1)>>)
              ELSE IF x < 65536 THEN Cat(<<"fe", UInt(x, 2)>>)
              ELSE IF x < 16777216 THEN Cat(<<"fd", UInt(x, 3)>>) ELSE Cat(<<"fc", UInt(x, 4)>>)
GobInt(x) == IF x >= 0 THEN GobUInt(2 * x) ELSE GobUInt(2 * (0 - x) - 1)
RECURSIVE GobFields(_, _)
\* fields equal to 0 are omitted; each is preceded by the distance from the one before
GobFields(vals, skipped) ==
    IF vals = <<>> THEN "00"
    ELSE IF Head(vals) = 0 THEN GobFields(Tail(vals), skipped + 1)
    ELSE Cat(<<UInt(skipped + 1, 1), GobInt(Head(vals)), GobFields(Tail(vals), 0)>>)
HeaderBytes2(f) ==
    LET v == Cat(<<"ffc4", GobFields(<<f.hdr.wires, f.hdr.witness, f.hdr.public, f.hdr.committed,
                                       f.hdr.constraints, f.hdr.domain, f.n>>, 0)>>)
    IN Cat(<<HeaderType, GobUInt(NBytes(v)), v>>)

RecordPoints2(r) == Cat(<<G1C(<<r.delta>>), KeyBytes(r.key)>>)
RecordHash2(r) == Sha(RecordPoints2(r))      \* Hash2
RecordBytes2(r) == Cat(<<RecordPoints2(r), r.hash>>)

Section2(f, sec) ==
    LET bad == SelectSeq(f.form, LAMBDA m : m.at = sec)
        s == IF sec = "delta1" THEN <<f.delta1>> ELSE f[sec]
        m == bad[1]
    IN IF bad = <<>> THEN IF s = <<>> THEN "" ELSE G1C(s)
       ELSE Cat(<<G1C(SubSeq(s, 1, m.i - 1)), OffCurve1(m.i), G1C(SubSeq(s, m.i + 1, Len(s)))>>)
Delta2(f) ==
    LET bad == SelectSeq(f.form, LAMBDA m : m.at = "delta2")
    IN IF bad = <<>> THEN G2C(<<f.delta2>>) ELSE IF bad[1].kind = "offgroup" THEN OffGroup2(1) ELSE OffCurve2(1)
RecordLayout2 == [delta |-> 0, s |-> 32, sx |-> 64, spx |-> 96]
MalformedRecord2(r, m) ==
    LET b == RecordPoints2(r)
        o == RecordLayout2[m.fld]
        w == IF m.fld = "spx" THEN 64 ELSE 32
        special == IF m.kind = "offgroup" THEN OffGroup2(m.i) ELSE IF m.fld = "spx" THEN OffCurve2(m.i) ELSE OffCurve1(m.i)
        nb == Cat(<<Slice(b, 0, o), special, Slice(b, o + w, 160 - o - w)>>)
    IN Cat(<<nb, Sha(nb)>>)
RecordsBytes2(f) ==
    Cat([j \in 1..Len(f.contribs) |->
            LET bad == SelectSeq(f.form, LAMBDA m : m.at = "rec" /\ m.i = j)
            IN IF bad = <<>> THEN RecordBytes2(f.contribs[j]) ELSE MalformedRecord2(f.contribs[j], bad[1])])

FileBytes2(f) == Cat(<<HeaderBytes2(f), Section2(f, "delta1"), Delta2(f), Section2(f, "z"), Section2(f, "pkk"), RecordsBytes2(f)>>)
=============================================================================
