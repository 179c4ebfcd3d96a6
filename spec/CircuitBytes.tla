---------------------------- MODULE CircuitBytes ----------------------------
(***************************************************************************)
(* The encodings of the files phase 2 initialization leaves for key        *)
(* extraction (srs.lag and evals, docs/Format.md) and of the keys.         *)
(***************************************************************************)
EXTENDS Circuit, Phase1Bytes, Phase2Bytes

UInt64(x) == Cat(<<"00000000", UInt(x, 4)>>)
Vec1(s) == Cat(<<UInt(Len(s), 4), IF s = <<>> THEN "" ELSE G1C(s)>>)      \* compressed sequences
Vec2(s) == Cat(<<UInt(Len(s), 4), IF s = <<>> THEN "" ELSE G2C(s)>>)
RawVec1(s) == Cat(<<UInt(Len(s), 4), IF s = <<>> THEN "" ELSE G1U(s)>>)
RawVec2(s) == Cat(<<UInt(Len(s), 4), IF s = <<>> THEN "" ELSE G2U(s)>>)

(***************************************************************************)
(* The commitment's description, a gob: slice, int, uint, int, slice       *)
(***************************************************************************)
InfoKinds == "siuis"
\* struct Commitment {Committed []int, NbPrivateCommitted int, HintID uint32, CommitmentIndex int,
\* CommittedAndCommitment []int}
InfoType == "79ff810301010a436f6d6d69746d656e7401ff820001050109436f6d6d697474656401ff840001124e6250726976617465436f6d6d6974746564010400010648696e744944010600010f436f6d6d69746d656e74496e6465780104000116436f6d6d6974746564416e64436f6d6d69746d656e7401ff8400000013ff83020101055b5d696e7401ff840001040000"
RECURSIVE GobInts(_)
GobInts(s) == IF s = <<>> THEN "" ELSE Cat(<<GobInt(Head(s)), GobInts(Tail(s))>>)
GobSlice(s) == Cat(<<GobUInt(Len(s)), GobInts(s)>>)
\* info: [committed, private, hint, index, all] or NoInfo
NoInfo == [committed |-> <<>>, private |-> 0, hint |-> 0, index |-> 0, all |-> <<>>]
InfoFields(i) == <<IF i.committed = <<>> THEN "" ELSE GobSlice(i.committed), IF i.private = 0 THEN "" ELSE GobInt(i.private),
                   IF i.hint = 0 THEN "" ELSE GobUInt(i.hint), IF i.index = 0 THEN "" ELSE GobInt(i.index),
                   IF i.all = <<>> THEN "" ELSE GobSlice(i.all)>>
RECURSIVE GobStruct(_, _)
GobStruct(fields, skipped) ==
    IF fields = <<>> THEN "00"
    ELSE IF Head(fields) = "" THEN GobStruct(Tail(fields), skipped + 1)
    ELSE Cat(<<UInt(skipped + 1, 1), Head(fields), GobStruct(Tail(fields), 0)>>)
InfoBytes(i) == LET v == Cat(<<"ff82", GobStruct(InfoFields(i), 0)>>) IN Cat(<<InfoType, GobUInt(NBytes(v)), v>>)
RECURSIVE Commas(_)
Commas(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o "," \o Commas(Tail(s))
InfoStrings(i) == <<"[" \o Commas(i.committed) \o "]", ToString(i.private), ToString(i.hint), ToString(i.index), "[" \o Commas(i.all) \o "]">>

(***************************************************************************)
(* srs.lag and evals                                                       *)
(***************************************************************************)
LagBytes(lag) == Cat(<<Vec1(lag.tau), Vec1(lag.alpha), Vec1(lag.beta), Vec2(lag.tau2)>>)
EvalsNames == <<"alpha1", "beta1", "beta2", "a", "b", "b2", "vkk", "ckk">>
EvalsSections(ev) == <<G1C(<<ev.alpha1>>), G1C(<<ev.beta1>>), G2C(<<ev.beta2>>), Vec1(ev.a), Vec1(ev.b), Vec2(ev.b2), Vec1(ev.vkk), Vec1(ev.ckk)>>
EvalsBytes(ev, info) == Cat(Append(EvalsSections(ev), InfoBytes(info)))

(***************************************************************************)
(* Keys                                                                    *)
(***************************************************************************)
FFTDomainBytes(n) == LET w == FOmega(n) g == FOfInt(5)
                     IN Cat(<<UInt64(n), FrBytes(FInv(FOfInt(n))), FrBytes(w), FrBytes(FInv(w)), FrBytes(g), FrBytes(FInv(g))>>)
Flags(s) == Cat([i \in DOMAIN s |-> IF s[i] THEN "01" ELSE "00"])
CountTrue(s) == Cardinality({i \in DOMAIN s : s[i]})

\* name and bytes of the parts of the proving key, in order
PKParts(pk) ==
    <<<<"domain", FFTDomainBytes(pk.domain)>>, <<"alpha1", G1C(<<pk.alpha1>>)>>, <<"beta1", G1C(<<pk.beta1>>)>>, <<"delta1", G1C(<<pk.delta1>>)>>,
      <<"A", Vec1(pk.a)>>, <<"B", Vec1(pk.b)>>, <<"Z", Vec1(pk.z)>>, <<"K", Vec1(pk.k)>>,
      <<"beta2", G2C(<<pk.beta2>>)>>, <<"delta2", G2C(<<pk.delta2>>)>>, <<"B2", Vec2(pk.b2)>>,
      <<"counts", Cat(<<UInt64(pk.wires), UInt64(CountTrue(pk.infA)), UInt64(CountTrue(pk.infB))>>)>>,
      <<"infA", Flags(pk.infA)>>, <<"infB", Flags(pk.infB)>>>>

\* parts of the verifying key after its commitment key, up to the commitment's description
VKParts(vk) ==
    <<<<"alpha1", G1U(<<vk.alpha1>>)>>, <<"beta1", G1U(<<vk.beta1>>)>>, <<"beta2", G2U(<<vk.beta2>>)>>, <<"gamma2", G2U(<<vk.gamma2>>)>>,
      <<"delta1", G1U(<<vk.delta1>>)>>, <<"delta2", G2U(<<vk.delta2>>)>>, <<"K", RawVec1(vk.k)>>>>

\* the Pedersen key for the basis made with the draw g of the generator and the secret sigma
PedersenBytes(basis, g, sigma) ==
    Cat(<<PedG2(g, FOne), PedG2(g, FNeg(FInv(sigma))), RawVec1(Scaled(basis, sigma)), RawVec1(basis)>>)
PedersenSize(n) == 2*128 + 2*(4 + 64*n)
=============================================================================
