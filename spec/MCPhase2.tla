------------------------------ MODULE MCPhase2 ------------------------------
(* Phase 2 contribution and verification against an adversary, small field *)
EXTENDS Adversary2, GF

CONSTANTS Deltas, MaxLen, Deviations

SymHash(r) == <<"h", r.delta, r.key>>
EmptyHash == <<>>
MCScalar(s) == 3
MCSecret(c, j) == IF c = "h" THEN [delta |-> 2, s |-> 3] ELSE [delta |-> 3, s |-> 1 + (j % 3)]
MCBogus(r) == <<"bogus", r>>
MCFlip(h, k) == <<"flip", k, h>>

VARIABLES origin, file, hist, dev
vars == <<origin, file, hist, dev>>

Header(dom, wit) == [wires |-> wit + 2, witness |-> wit, public |-> 2, committed |-> 0, constraints |-> dom, domain |-> dom]
Origin(z, k) == [hdr |-> Header(Len(z) + 1, Len(k)), n |-> 0, delta1 |-> 1, delta2 |-> 1, z |-> z, pkk |-> k, contribs |-> <<>>, form |-> <<>>]
Init == /\ origin \in {Origin(<<2>>, <<3>>), Origin(<<3, 0, 4>>, <<1, 1, 2>>), Origin(<<1>>, <<>>)}
        /\ file = origin /\ hist = <<>> /\ dev = 0

DoContribute(sec) == /\ file.n < MaxLen /\ Len(file.contribs) >= file.n
                     /\ file' = Contribute2(file, sec) /\ hist' = Append(hist, sec) /\ UNCHANGED <<origin, dev>>
Tampered(g) == dev < Deviations /\ dev' = dev + 1 /\ file' = g /\ UNCHANGED <<origin, hist>>
Records == file.n >= 1 /\ Len(file.contribs) = file.n /\ file.delta1 # 0
Tamper == Records /\
    \/ \E j \in 1..file.n : \E kd \in Devs2(j) : Tampered(DevFile2(origin, hist, j, kd))
    \/ \E o \in ListOps2(file.n), keep \in BOOLEAN :
          Tampered(WithRecords2(file, origin, ApplyList2(o, file, HonestOn2(origin, Chain2("o", file.n))), keep))
    \/ \E j \in 1..file.n, fld \in RecFields2, how \in {"scale", "zero", "neg"}, rs \in BOOLEAN : Tampered(ApplyRecField2(file, j, fld, how, rs))
    \/ \E sec \in {"z", "pkk"}, how \in PointHows2 : \E i \in 1..Len(file[sec]) : Tampered(ApplyPoint2(file, origin, sec, i, how))
    \/ \E how \in ParamHows \ (IF file.pkk = <<>> THEN {"swapzpkk"} ELSE {}) : Tampered(ApplyParams(file, origin, how))
    \/ \E n \in {0, file.n - 1, file.n + 1} : n # file.n /\ Tampered([file EXCEPT !.n = n])
    \/ \E h \in HeaderFields : Tampered([file EXCEPT !.hdr[h] = @ + 1])
Next == \/ \E d \in Deltas, s \in {1, 2} : DoContribute([delta |-> d, s |-> s])
        \/ Tamper

RECURSIVE Prod(_)
Prod(h) == IF h = <<>> THEN 1 ELSE GFMul(Head(h).delta, Prod(Tail(h)))

HonestAccepted == dev = 0 /\ file.n >= 1 => Accepts2(file, origin)                                   \* C09
HonestParams == dev = 0 => LET d == Prod(hist) IN                                                   \* C08
    /\ file.delta1 = d /\ file.delta2 = d /\ file.z = Scaled(origin.z, GFInv(d)) /\ file.pkk = Scaled(origin.pkk, GFInv(d))
    /\ file.hdr = origin.hdr /\ file.n = Len(hist)
AcceptedIsWellFormed == Accepts2(file, origin) = WellFormed2(file, origin)                          \* C10, C11
RecordsKept == [][dev' = dev => IsPrefix(SubSeq(file.contribs, 1, file.n), file'.contribs)]_vars
=============================================================================
