------------------------------ MODULE MCPhase1 ------------------------------
(***************************************************************************)
(* Phase 1 as a state machine over a small field: contributors with        *)
(* arbitrary secrets extend the file, and an adversary who may know all    *)
(* secrets deviates (at most Deviations times) anywhere in the history.    *)
(***************************************************************************)
EXTENDS Adversary1, GF

CONSTANTS Secrets, MaxLen, Powers, Deviations

SymHash(r) == <<"h", r.tau1, r.alpha1, r.beta1, r.tau2, r.beta2, r.keys>>
EmptyHash == <<>>
MCScalar(s) == 3
MCSecret(c, j) == IF c = "h" THEN [tau |-> 2, alpha |-> 3, beta |-> 4, sTau |-> 2, sAlpha |-> 1, sBeta |-> 3]
                  ELSE [tau |-> 3, alpha |-> 3, beta |-> 2, sTau |-> 1, sAlpha |-> 2, sBeta |-> 2]
MCBogus(r) == <<"bogus", r>>
MCFlip(h, k) == <<"flip", k, h>>

VARIABLES file, start, hist, dev
vars == <<file, start, hist, dev>>

Converted(p) == FileOf(p, 0, 2, 2, 3, 4, 4, <<>>)
SecretRecs == {[tau |-> x[1], alpha |-> x[2], beta |-> x[3], sTau |-> x[4], sAlpha |-> 1, sBeta |-> 2] : x \in Secrets \X Secrets \X Secrets \X {1, 2}}

Init == /\ \E p \in Powers : start \in {Initialize(p), Converted(p)}
        /\ file = start /\ hist = <<>> /\ dev = 0

DoContribute(sec) == /\ CanContribute(file) /\ file.n < MaxLen
                     /\ file' = Contribute(file, sec)
                     /\ hist' = Append(hist, sec)
                     /\ UNCHANGED <<start, dev>>

Tampered(g) == dev < Deviations /\ dev' = dev + 1 /\ file' = g /\ UNCHANGED <<start, hist>>

OtherFile == HonestOn(start, Chain("o", file.n))
Records == file.n >= 1 /\ file.form = <<>> /\ Len(file.contribs) = file.n
TamperRecord == Records /\ \E j \in 1..file.n : \E d \in Devs(j) :
                   Tampered(DevFile(file.power, BaseOf(start), hist, j, d))
TamperList == Records /\ \E o \in ListOps(file.n), keep \in BOOLEAN :
                   LET rs == ApplyList(o, file, OtherFile) IN Tampered(WithRecords(file, rs, keep \/ rs = <<>>))
TamperField == Records /\ \E j \in 1..file.n, how \in {"scale", "zero", "neg"}, reseal \in BOOLEAN :
                   \/ \E fld \in Fields : Tampered(ApplyField(file, j, fld, how, reseal))
                   \/ \E p \in Params, fld \in KeyFields : Tampered(ApplyKeyField(file, j, p, fld, how, reseal))
TamperPoint == \E q \in 1..5, how \in PointHows \cup TailHows : \E i \in 1..Len(file[Sections[q]]) :
                   Tampered(ApplyPoint(file, Sections[q], i, how))
TamperSection == Records /\ \E q \in 1..5, how \in SectionHows : Tampered(ApplySection(file, BaseOf(start), Sections[q], how))
TamperAll == Records /\ \E how \in AllHows : Tampered(ApplyAll(file, how))
TamperCount == \E n \in {0, file.n - 1, file.n + 1} : n >= 0 /\ n # file.n /\ Tampered([file EXCEPT !.n = n])
TamperBase == Tampered(Zeros(file.power))

Next == \/ \E sec \in SecretRecs : DoContribute(sec)
        \/ hist = <<>> /\ TamperBase
        \/ TamperRecord \/ TamperList \/ TamperField \/ TamperPoint \/ TamperSection \/ TamperAll \/ TamperCount

RECURSIVE Prod(_, _)
Prod(h, w) == IF h = <<>> THEN 1 ELSE GFMul(Head(h)[w], Prod(Tail(h), w))

\* C01
HonestAccepted == dev = 0 /\ file.n >= 1 => Accepts(file, BaseOf(start))
\* C02: the parameters are those of the products of all secrets
HonestParams == dev = 0 =>
    LET b == BaseOf(start)
        t == GFMul(b.tau1, Prod(hist, "tau"))
    IN ParamsAre(file, t, GFMul(b.alpha1, Prod(hist, "alpha")), GFMul(b.beta1, Prod(hist, "beta"))) /\ file.n = Len(hist)
\* C03, C04 (soundness) and no needless rejection
AcceptedIsWellFormed == Accepts(file, BaseOf(start)) = WellFormed(file, BaseOf(start))
\* C02: earlier records are kept
RecordsKept == [][dev' = dev => IsPrefix(SubSeq(file.contribs, 1, file.n), file'.contribs)]_vars
\* C04: against the wrong starting point, if it differs, the file is rejected
WrongBase == LET other == IF start = Initialize(file.power) THEN Converted(file.power) ELSE Initialize(file.power)
             IN dev = 0 /\ file.n >= 1 => ~Accepts(file, BaseOf(other))
=============================================================================
