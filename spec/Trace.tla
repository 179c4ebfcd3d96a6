------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validates traces of the real commands (code -> spec).  A scenario is a  *)
(* sequence of steps, each a command with what was observed: exit status,  *)
(* output files, hashes printed, reads of the random generator.  The       *)
(* validator keeps the abstract file behind every file name; a contributor's*)
(* secrets are found among the draws by their commitments in the record.   *)
(* A step that doesn't conform adds <<properties, what>>; the file it      *)
(* wrote is unknown from then on, so that one deviation is reported once.  *)
(***************************************************************************)
EXTENDS Inputs, Json, TLC

Scenarios == ndJsonDeserialize(EnvStr("ZK_IN", ""))
Out == EnvStr("ZK_OUT", "/dev/null")
None == "-"
NoFiles == [x \in {} |-> 0]

(***************************************************************************)
(* What is known of a file: t (its kind), known, its abstract value f with *)
(* the origin o, honest (made by commands that must succeed and verify),   *)
(* the bytes observed and the hashes of its records as stored              *)
(***************************************************************************)
Unknown(t, honest, obs, hashes) == [t |-> t, known |-> FALSE, f |-> <<>>, o |-> <<>>, honest |-> honest, obs |-> obs, hashes |-> hashes]
Known(t, f, o, honest, obs, hashes) == [t |-> t, known |-> TRUE, f |-> f, o |-> o, honest |-> honest, obs |-> obs, hashes |-> hashes]
Judged(ok, t, f, o, honest, obs, hashes) == IF ok THEN Known(t, f, o, honest, obs, hashes) ELSE Unknown(t, honest, obs, hashes)

Bytes(obs, from, n) == IF obs = None \/ from + n > NBytes(obs) THEN "" ELSE Slice(obs, from, n)
Size(obs) == IF obs = None THEN 0 - 1 ELSE NBytes(obs)

\* names of the parts <<name, bytes>> that aren't at their place in obs from offset off on
RECURSIVE DiffAt(_, _, _)
DiffAt(obs, parts, off) ==
    IF parts = <<>> THEN {}
    ELSE LET n == NBytes(Head(parts)[2])
         IN IF off + n > Size(obs) THEN {Head(parts)[1] \o " is cut"}
            ELSE (IF Slice(obs, off, n) = Head(parts)[2] THEN {} ELSE {Head(parts)[1]}) \cup DiffAt(obs, Tail(parts), off + n)
RECURSIVE SizeOf(_)
SizeOf(parts) == IF parts = <<>> THEN 0 ELSE NBytes(Head(parts)[2]) + SizeOf(Tail(parts))
Diff(obs, parts) == IF obs = None THEN {"no file"}
                    ELSE DiffAt(obs, parts, 0) \cup (IF Size(obs) > SizeOf(parts) THEN {"longer"} ELSE {})

Records1(f) == [j \in 1..Len(f.contribs) |-> <<"record " \o ToString(j), RecordBytes(f.contribs[j])>>]
Parts1(f) == <<<<"header", HeaderBytes(f)>>>> \o [q \in 1..5 |-> <<Sections[q], SectionBytes(f, Sections[q])>>] \o Records1(f)

\* phase 2: the header's gob may be written in more than one way
HeaderValues(f) == <<ToString(f.hdr.wires), ToString(f.hdr.witness), ToString(f.hdr.public), ToString(f.hdr.committed),
                     ToString(f.hdr.constraints), ToString(f.hdr.domain), ToString(f.n)>>
HeaderKinds == "iiiiiii"
HeaderEnd(obs) == IF obs = None THEN 0 - 1 ELSE GobSize(obs, HeaderKinds)
Records2(f) == [j \in 1..Len(f.contribs) |-> <<"record " \o ToString(j), RecordBytes2(f.contribs[j])>>]
Parts2(f) == <<<<"delta1", G1C(<<f.delta1>>)>>, <<"delta2", G2C(<<f.delta2>>)>>, <<"z", IF f.z = <<>> THEN "" ELSE G1C(f.z)>>,
               <<"pkk", IF f.pkk = <<>> THEN "" ELSE G1C(f.pkk)>>>> \o Records2(f)
Diff2(obs, f) ==
    LET h == HeaderEnd(obs)
        p == Parts2(f)
    IN IF h < 0 THEN {"no header"}
       ELSE (IF GobDecoded(obs, HeaderKinds) = HeaderValues(f) THEN {} ELSE {"header"})
            \cup DiffAt(obs, p, h) \cup (IF Size(obs) > h + SizeOf(p) THEN {"longer"} ELSE {})

DiffEvals(obs, ev, info) ==
    LET s == EvalsSections(ev)
        p == [i \in DOMAIN s |-> <<"evals " \o EvalsNames[i], s[i]>>]
        n == SizeOf(p)
        d == IF obs = None THEN {"no evals"} ELSE DiffAt(obs, p, 0)
    IN IF d # {} THEN d
       ELSE LET g == Bytes(obs, n, Size(obs) - n)
            IN (IF GobDecoded(g, InfoKinds) = info THEN {} ELSE {"commitment info"}) \cup (IF GobSize(g, InfoKinds) = NBytes(g) THEN {} ELSE {"end of evals"})
DiffLag(obs, lag) == Diff(obs, <<<<"lag tau", Vec1(lag.tau)>>, <<"lag alpha", Vec1(lag.alpha)>>, <<"lag beta", Vec1(lag.beta)>>, <<"lag tau2", Vec2(lag.tau2)>>>>)

(***************************************************************************)
(* Secrets of a contribution, from the reads of the random generator       *)
(***************************************************************************)
\* [s, x, ds, dx] with S = s*g1, SX = s*x*g1 and the numbers of the draws; 0 where there is none
InferKey(cands, S, SX) ==
    LET ms == {i \in DOMAIN cands : G1C(<<cands[i][1]>>) = S}
        s == cands[CHOOSE i \in ms : TRUE]
        mx == {i \in DOMAIN cands : G1C(<<FMul(s[1], cands[i][1])>>) = SX}
        x == cands[CHOOSE i \in mx : TRUE]
    IN IF ms = {} THEN [s |-> FZero, x |-> FZero, ds |-> 0, dx |-> 0]
       ELSE IF mx = {} THEN [s |-> s[1], x |-> FZero, ds |-> s[2], dx |-> 0]
       ELSE [s |-> s[1], x |-> x[1], ds |-> s[2], dx |-> x[2]]

Infer1(e, rec) ==
    LET cands == Candidates(e.draws)
        k(o) == InferKey(cands, Bytes(rec, o, 32), Bytes(rec, o + 32, 32))
    IN [tau |-> k(RecordLayout.tauS), alpha |-> k(RecordLayout.alphaS), beta |-> k(RecordLayout.betaS)]
Infer2(e, rec) == InferKey(Candidates(e.draws), Bytes(rec, 32, 32), Bytes(rec, 64, 32))

\* C15: every secret and blinding is a draw of its own
DrawsBad(ks) ==
    LET ds == UNION {{<<p, "s", ks[p].ds>>, <<p, "x", ks[p].dx>>} : p \in DOMAIN ks}
        nums == {d[3] : d \in ds}
    IN (IF \E d \in ds : d[3] = 0 THEN {"a secret is no draw of the generator"} ELSE {})
       \cup (IF 0 \notin nums /\ Cardinality(nums) # Cardinality(ds) THEN {"a draw is used twice"} ELSE {})

(***************************************************************************)
(* The steps.  Each gives [fs: files written, bad: set of <<props, what>>] *)
(***************************************************************************)
Tag(props, whats) == {<<props, w>> : w \in whats}
If(cond, props, what) == IF cond THEN {<<props, what>>} ELSE {}
Failed(e) == e.rc # 0

StoredHashes(obs, start, size, n) == [j \in 1..n |-> Bytes(obs, start + size*j - 32, 32)]

\* hashes printed by a contribution: the new record's, and none that isn't stored
PrintedBad(e, stored) ==
    IF stored = <<>> THEN {}
    ELSE If(~\E i \in DOMAIN e.printed : e.printed[i] = stored[Len(stored)], {"C19"}, "the contribution's hash isn't shown")
         \cup If(\E i \in DOMAIN e.printed : ~\E j \in DOMAIN stored : stored[j] = e.printed[i], {"C19"}, "a hash is shown that isn't stored")

\* in a light step the file isn't looked at; the hashes expected of verification are those shown
Shown(e, in) == Append(in.hashes, IF e.printed = <<>> THEN "" ELSE e.printed[Len(e.printed)])

StepMade(e) ==
    [fs |-> CASE e.op = "mk1" -> (e.out :> LET f == Made1(e) IN Known("p1", f, IF e.logs = "unit" THEN DefaultBase ELSE BaseOf(Start1(e)), e.junk = "no" /\ e.left = 0, None, [j \in 1..Len(f.contribs) |-> f.contribs[j].hash]))
              [] e.op = "mk1s" -> (e.out :> Known("p1", Prefix(e), BaseOf(Prefix(e)), TRUE, None, <<>>))
              [] e.op = "mkppots" -> (e.out :> Known("ppot", Prefix(e), <<>>, TRUE, None, <<>>))
              [] e.op = "mkppot" -> (e.out :> Known("ppot", MadePpot(e), <<>>, TRUE, None, <<>>))
              [] e.op = "mk2" -> (e.out :> LET f == Made2(e) IN Known("p2", f, Origin2(e), e.junk = "no" /\ e.left = 0, None, [j \in 1..Len(f.contribs) |-> f.contribs[j].hash]))
              [] e.op = "mkev" -> (e.out :> Known("ev", MadeEvals(e), InfoStrings(MadeInfo(e)), TRUE, None, <<>>)),
     bad |-> {}]

StepP1n(e, fs) ==
    LET f == Initialize(e.power)
        d == Diff(e.o, Parts1(f))
    IN IF Failed(e) THEN [fs |-> (e.out :> Unknown("p1", FALSE, None, <<>>)), bad |-> {<<{"C01"}, "p1n fails">>}]
       ELSE [fs |-> (e.out :> Judged(d = {}, "p1", f, DefaultBase, TRUE, e.o, <<>>)), bad |-> Tag({"C02"}, d) \cup Tag({"C22"}, d \cap {"header", "no file"})]

StepP1c(e, fs) ==
    LET in == fs[e.in]
        f == in.f
        n == Len(in.hashes)
        start == 3 + ParamsSize(e.power)
        hs == StoredHashes(e.o, start, RecordSize, n + 1)
        rec == Bytes(e.o, start + RecordSize*n, RecordSize)
        seal == IF rec = "" THEN {} ELSE If(Sha(Slice(rec, 0, RecordSize - 32)) # Slice(rec, RecordSize - 32, 32), {"C19", "C02"}, "the record's hash")
        kept == If(\E j \in 1..n : hs[j] # in.hashes[j], {"C19"}, "an earlier hash")
        ks == Infer1(e, rec)
        draws == IF rec = "" THEN {} ELSE Tag({"C15"}, DrawsBad(ks))
        ok == \A p \in Params : ks[p].ds # 0 /\ ks[p].dx # 0
        halfway == \E p \in Params : ks[p].ds # 0 /\ ks[p].dx = 0
        left == f.n - Len(f.contribs)      \* see Repeated in Inputs.tla
        g == [Contribute([f EXCEPT !.n = @ - left], [tau |-> ks.tau.x, alpha |-> ks.alpha.x, beta |-> ks.beta.x,
                            sTau |-> ks.tau.s, sAlpha |-> ks.alpha.s, sBeta |-> ks.beta.s]) EXCEPT !.n = @ + left]
        d == IF ~in.known THEN {} ELSE IF rec = "" THEN {"no record"}
             ELSE IF ok THEN Diff(e.o, Parts1(g)) ELSE IF halfway THEN {"the record's keys"} ELSE {}
    IN IF Failed(e) THEN [fs |-> (e.out :> Unknown("p1", FALSE, None, <<>>)), bad |-> IF in.honest THEN {<<{"C01"}, "p1c fails">>} ELSE {}]
       ELSE IF in.known /\ f.n >= MaxContributions THEN [fs |-> (e.out :> Unknown("p1", FALSE, None, <<>>)), bad |-> {<<{"C02"}, "a contribution more than the counter holds">>}]
       ELSE IF e.light THEN [fs |-> (e.out :> Unknown("p1", in.honest, None, Shown(e, in))), bad |-> {}]
       ELSE [fs |-> (e.out :> Judged(in.known /\ ok /\ d = {}, "p1", g, in.o, in.honest, e.o, hs)),
             bad |-> Tag({"C02"}, d) \cup draws \cup kept \cup seal \cup PrintedBad(e, hs)]

\* bytes in the first reads of the random generator, up to 16
RECURSIVE Drawn(_, _)
Drawn(ds, i) == IF i > Len(ds) \/ i > 16 THEN 0 ELSE NBytes(ds[i]) + Drawn(ds, i + 1)
\* a combination of several elements proves something of each only under weights that nobody can foretell
Foretold(e, several) == several /\ ~Failed(e) /\ Drawn(e.draws, 1) < 16

\* a file too large to be predicted, of which elements are replaced.  The parameters of a file are determined by its records and its origin, so
\* whatever they are replaced by, the file isn't acceptable any more: the verdict doesn't need the logarithms
PlaceOf1(at, p) == \E k \in 1..5 : LET sec == Sections[k]
                                      w == IF IsG2(sec) THEN 64 ELSE 32
                                      o == at - 3 - 32 * UnitsBefore(Sections, k, p)
                                  IN o >= 0 /\ o % w = 0 /\ o \div w < SectionLen(sec, p)
PlaceOf2(at, e) == LET o == at - HeaderEnd(e.header) - 96 IN o >= 0 /\ o % 32 = 0 /\ o \div 32 < e.points
\* nor is it if its records are other ones, fewer or more: each is bound to the one before it, and the last one to the parameters
RecordOf1(at, p) == at >= 3 + 32 * UnitsBefore(Sections, 6, p)
RecordOf2(at, e) == at >= HeaderEnd(e.header) + 96 + 32 * e.points
StepAlter(e, fs) ==
    LET patched == {i \in DOMAIN e.patches : e.patches[i].old # e.patches[i].new}
        forged == e.count[1] # e.count[2] \/ \E i \in patched : IF e.phase = 1 THEN RecordOf1(e.patches[i].at, e.power) ELSE RecordOf2(e.patches[i].at, e)
        altered == \E i \in patched : IF e.phase = 1 THEN PlaceOf1(e.patches[i].at, e.power) ELSE PlaceOf2(e.patches[i].at, e)
    IN [fs |-> (e.out :> Unknown(IF forged THEN "forged" ELSE IF altered THEN "spoiled" ELSE "unaltered", FALSE, None, fs[e.in].hashes)), bad |-> {}]

StepP1v(e, fs) ==
    LET in == fs[e.in]
        \* any file can be a starting point, not only one without contributions
        base == IF e.base = None THEN DefaultBase ELSE IF fs[e.base].known THEN BaseOf(fs[e.base].f) ELSE fs[e.base].o
        wrongBase == in.known /\ (e.base = None \/ fs[e.base].known) /\ base # in.o
        want == ~wrongBase
        sure == in.known \/ (in.honest /\ ~wrongBase)
    IN [fs |-> NoFiles,
        bad |-> (IF in.honest /\ want /\ Len(in.hashes) > 0 /\ Failed(e) THEN {<<{"C01"}, "verification of an honest file fails">>} ELSE {})
                \cup If(sure /\ (~want \/ Len(in.hashes) = 0) /\ ~Failed(e), IF want THEN {"C03", "C04"} ELSE {"C04", "C05"}, "verification accepts a wrong starting point or no contributions")
                \cup If(in.t = "spoiled" /\ ~Failed(e), {"C03"}, "verification accepts altered parameters")
                \cup If(in.t = "forged" /\ ~Failed(e), {"C04"}, "verification accepts an altered transcript")
                \cup If(Foretold(e, TRUE), {"C03"}, "verification combines elements with weights that can be foretold")
                \cup If(~Failed(e) /\ e.printed # in.hashes, {"C19"}, "hashes shown by verification")]

StepP1t(e, fs) ==
    LET g == fs[e.in].f
        f == Transform(g, e.reduced)
        d == Diff(e.o, Parts1(f))
    IN \* with another power than the file's the sections lie elsewhere: elements of the other group are met there
       IF e.original # g.power THEN [fs |-> (e.out :> Unknown("p1", FALSE, None, <<>>)), bad |-> If(~Failed(e), {"C05"}, "a wrong power is accepted")]
       ELSE IF Failed(e) THEN [fs |-> (e.out :> Unknown("p1", FALSE, None, <<>>)), bad |-> {<<{"C01", "C05"}, "p1t fails">>}]
       ELSE [fs |-> (e.out :> Judged(d = {}, "p1", f, BaseOf(f), TRUE, e.o, <<>>)), bad |-> Tag({"C05"}, d) \cup Tag({"C22"}, d \cap {"header", "no file"})]

\* the circuit's properties: those of a commitment also concern C14
Circ(c) == IF HasCommitment(c) THEN {"C06", "C14"} ELSE {"C06"}
StepP2n(e, fs) ==
    LET in == fs[e.in]
        c == e.circuit
        fits == Fits(c, e.power)
        i == Initialize2(in.f, c)
        d2 == Diff2(e.o, i.f2)
        dev == DiffEvals(e.evals, i.ev, c.info)
        dlag == DiffLag(e.lag, i.lag)
        judge == in.known
        ok == judge /\ d2 = {} /\ dev = {}
        names == {e.out, "evals"}
        unk(h) == (e.out :> Unknown("p2", h, e.o, <<>>)) @@ ("evals" :> Unknown("ev", h, e.evals, <<>>))
    IN IF ~fits THEN [fs |-> unk(FALSE), bad |-> If(~Failed(e), {"C23"}, "a circuit that doesn't fit is accepted")]
       ELSE IF Failed(e) THEN [fs |-> unk(FALSE), bad |-> If(in.honest, {"C23"} \cup Circ(c), "initialization fails")]
       ELSE IF ~judge THEN [fs |-> unk(in.honest), bad |-> {}]
       ELSE [fs |-> IF ok THEN (e.out :> Known("p2", i.f2, i.f2, TRUE, e.o, <<>>)) @@ ("evals" :> Known("ev", i.ev, c.info, TRUE, e.evals, <<>>))
                    ELSE unk(TRUE),
             bad |-> Tag(Circ(c), d2) \cup Tag(Circ(c), dev) \cup Tag({"C21"}, dlag)]

\* phase 2 from parts, compared with phase 2 from the whole circuit (e.ref)
EvalsPrefix(c) == LET h == HeaderOf(c) IN 128 + 12 + 128*c.wires + 4 + 32*h.public + 4 + 32*h.committed
SameEvals(a, b, c) == /\ Bytes(a, 0, EvalsPrefix(c)) = Bytes(b, 0, EvalsPrefix(c))
                      /\ Size(a) >= EvalsPrefix(c) /\ Size(b) >= EvalsPrefix(c)
                      /\ GobDecoded(Bytes(a, EvalsPrefix(c), Size(a) - EvalsPrefix(c)), InfoKinds) = GobDecoded(Bytes(b, EvalsPrefix(c), Size(b) - EvalsPrefix(c)), InfoKinds)
StepP2np(e, fs) ==
    LET ref == fs[e.ref]
        right == e.constraints = e.circuit.constraints
        \* with another number of stored constraints it may fail, but not leave any out
        exact == e.stored = e.circuit.nbR1C
        h == HeaderEnd(e.o)
        rh == HeaderEnd(ref.obs)
    IN [fs |-> (e.out :> Unknown("p2", ref.honest, e.o, <<>>)),
        bad |-> IF ~right THEN If(~Failed(e), {"C07"}, "a wrong number of constraints is accepted")
                ELSE IF ~Fits(e.circuit, e.power) THEN If(~Failed(e), {"C23"}, "a parted circuit that doesn't fit is accepted")
                ELSE IF Failed(e) THEN If(ref.honest /\ exact, {"C07", "C23"}, "initialization from parts fails")
                ELSE IF ~ref.honest THEN {}
                ELSE IF h < 0 \/ rh < 0 THEN If(h < 0, {"C07"}, "no header")
                ELSE If(GobDecoded(e.o, HeaderKinds) # GobDecoded(ref.obs, HeaderKinds), {"C07"}, "header from parts")
                     \cup If(Slice(e.o, h, Size(e.o) - h) # Slice(ref.obs, rh, Size(ref.obs) - rh), {"C07"}, "phase 2 file from parts")
                     \cup If(~SameEvals(e.evals, fs["evals"].obs, e.circuit), {"C07"}, "evaluations from parts")]

Record2Size == 192
StepP2c(e, fs) ==
    LET in == fs[e.in]
        f == in.f
        n == Len(in.hashes)
        h == HeaderEnd(e.o)
        start == h + 96 + 32 * (e.points)
        hs == StoredHashes(e.o, start, Record2Size, n + 1)
        rec == IF h < 0 THEN "" ELSE Bytes(e.o, start + Record2Size*n, Record2Size)
        seal == IF rec = "" THEN {} ELSE If(Sha(Slice(rec, 0, Record2Size - 32)) # Slice(rec, Record2Size - 32, 32), {"C19", "C08"}, "the record's hash")
        kept == If(h >= 0 /\ \E j \in 1..n : hs[j] # in.hashes[j], {"C19"}, "an earlier hash")
        k == Infer2(e, rec)
        draws == IF rec = "" THEN {} ELSE Tag({"C15"}, DrawsBad([delta |-> k]))
        ok == k.ds # 0 /\ k.dx # 0
        left == f.n - Len(f.contribs)
        g == [Contribute2([f EXCEPT !.n = @ - left], [delta |-> k.x, s |-> k.s]) EXCEPT !.n = @ + left]
        d == IF ~in.known THEN {} ELSE IF rec = "" THEN {"no record"}
             ELSE IF ok THEN Diff2(e.o, g) ELSE IF k.ds # 0 THEN {"the record's key"} ELSE {}
    IN IF Failed(e) THEN [fs |-> (e.out :> Unknown("p2", FALSE, None, <<>>)), bad |-> IF in.honest THEN {<<{"C09"}, "p2c fails">>} ELSE {}]
       ELSE IF e.light THEN [fs |-> (e.out :> Unknown("p2", in.honest, None, Shown(e, in))), bad |-> {}]
       ELSE [fs |-> (e.out :> Judged(in.known /\ ok /\ d = {}, "p2", g, in.o, in.honest, e.o, hs)),
             bad |-> Tag({"C08"}, d) \cup draws \cup kept \cup seal \cup PrintedBad(e, hs)]

StepP2v(e, fs) ==
    LET in == fs[e.in]
        or == fs[e.base]
        same == in.honest /\ e.same            \* the origin is that of the file
    IN [fs |-> NoFiles,
        bad |-> If(same /\ Len(in.hashes) > 0 /\ Failed(e), {"C09"}, "verification of an honest file fails")
                \cup If(Len(in.hashes) = 0 /\ ~Failed(e), {"C11"}, "verification accepts a file without contributions")
                \cup If(in.known /\ or.known /\ ~Failed(e) /\ ~Accepts2(in.f, or.f), {"C10", "C11"}, "verification accepts a file with another origin")
                \cup If(in.t = "spoiled" /\ ~Failed(e), {"C10"}, "verification accepts altered parameters")
                \cup If(in.t = "forged" /\ ~Failed(e), {"C11"}, "verification accepts an altered transcript")
                \cup If(Foretold(e, e.several), {"C10"}, "verification combines elements with weights that can be foretold")
                \cup If(~Failed(e) /\ e.printed # in.hashes, {"C19"}, "hashes shown by verification")]

(***************************************************************************)
(* Keys                                                                    *)
(***************************************************************************)
KeyProps(n) == IF n > 0 THEN {"C12", "C14"} ELSE {"C12"}
\* the generator and the secret of the Pedersen key at the start of a verifying key, if they can be found
PedersenBad(vk, basis, draws) ==
    LET n == PedersenSize(Len(basis))
        gs == {i \in DOMAIN draws : NBytes(draws[i]) = 32 /\ PedG2(draws[i], FOne) = Bytes(vk, 0, 128)}
        g == draws[CHOOSE i \in gs : TRUE]
        cands == Candidates(draws)
        ss == {i \in DOMAIN cands : PedG2(g, FNeg(FInv(cands[i][1]))) = Bytes(vk, 128, 128)}
        sigma == cands[CHOOSE i \in ss : TRUE][1]
    IN IF gs = {} \/ ss = {} THEN {}
       ELSE If(Bytes(vk, 0, n) # PedersenBytes(basis, g, sigma), KeyProps(Len(basis)), "commitment key")
VkBad(vk, model, ev, info, draws) ==
    LET m == Len(ev.ckk)
        n == PedersenSize(m)
        parts == VKParts(model)
        end == n + SizeOf(parts)
        gob == Bytes(vk, end, Size(vk) - end)
    IN IF Size(vk) < end THEN {<<KeyProps(m), "verifying key is too short">>}
       ELSE If(Bytes(vk, n - 4 - 64*m, 4 + 64*m) # RawVec1(ev.ckk), KeyProps(m), "commitment basis")
            \cup Tag(KeyProps(m), {"verifying key " \o w : w \in DiffAt(vk, parts, n)})
            \cup If(GobDecoded(gob, InfoKinds) # info \/ GobSize(gob, InfoKinds) # NBytes(gob), KeyProps(m), "commitment info of the verifying key")
            \cup PedersenBad(vk, ev.ckk, draws)
StepKey(e, fs) ==
    LET in == fs[e.in]
        ev == fs["evals"]
        pkd == Diff(e.pk, PKParts(ProvingKey(in.f, ev.f)))
        n == Len(ev.f.ckk)
        names == ("pk" :> Unknown("pk", in.honest, e.pk, <<>>)) @@ ("vk" :> Unknown("vk", in.honest, e.vk, <<>>))
    IN IF Failed(e) THEN [fs |-> ("pk" :> Unknown("pk", FALSE, None, <<>>)) @@ ("vk" :> Unknown("vk", FALSE, None, <<>>)),
                          bad |-> If(in.honest /\ ev.honest, {"C12"}, "key extraction fails")]
       ELSE [fs |-> names,
             bad |-> IF in.known /\ ev.known
                     THEN Tag(KeyProps(n), {"proving key " \o w : w \in pkd}) \cup VkBad(e.vk, VerifyingKey(in.f, ev.f), ev.f, ev.o, e.draws)
                     ELSE {}]

\* offsets of the parts of an observed proving key, from its counts; <<>> if it has another shape
PkOffsets(pk) ==
    LET a == 264
        na == IntAt(pk, a, 4)
        b == a + 4 + 32*na
        nb == IF na < 0 THEN 0 - 1 ELSE IntAt(pk, b, 4)
        z == b + 4 + 32*nb
        nz == IF nb < 0 THEN 0 - 1 ELSE IntAt(pk, z, 4)
        k == z + 4 + 32*nz
        nk == IF nz < 0 THEN 0 - 1 ELSE IntAt(pk, k, 4)
        b2 == k + 4 + 32*nk + 128
        nb2 == IF nk < 0 THEN 0 - 1 ELSE IntAt(pk, b2, 4)
        c == b2 + 4 + 64*nb2
        w == IF nb2 < 0 THEN 0 - 1 ELSE IntAt(pk, c, 8)
    IN IF w < 0 THEN <<>> ELSE <<a, b, z, k, b2, c, w>>
RawOf(pk, off, next) == Cat(<<Bytes(pk, off, 4), G1Raw(Bytes(pk, off + 4, next - off - 4))>>)
\* the split files belonging to a proving key
SplitPk(pk) ==
    LET o == PkOffsets(pk)
    IN [A |-> RawOf(pk, o[1], o[2]), B1 |-> RawOf(pk, o[2], o[3]), Z |-> RawOf(pk, o[3], o[4]), K |-> RawOf(pk, o[4], o[5] - 128),
        B2 |-> Cat(<<Bytes(pk, o[5], 4), G2Raw(Bytes(pk, o[5] + 4, o[6] - o[5] - 4))>>),
        E |-> Cat(<<Bytes(pk, 0, 8), G1Raw(Bytes(pk, 168, 96)), G2Raw(Bytes(pk, o[5] - 128, 128)), Bytes(pk, o[6], 24 + 2*o[7])>>)]
PkFiles == {"A", "B1", "Z", "K", "B2", "E"}
PedersenEnd(vk) == PedersenSize(IntAt(vk, 256, 4))
\* the verifying key's elements follow the commitment key, the commitment's description ends it
VkEnd(vk) == LET p == PedersenEnd(vk) IN p + 576 + 4 + 64*IntAt(vk, p + 576, 4)
SameVk(a, b) == LET pa == PedersenEnd(a)  pb == PedersenEnd(b)
                    ga == Bytes(a, VkEnd(a), Size(a) - VkEnd(a))  gb == Bytes(b, VkEnd(b), Size(b) - VkEnd(b))
                IN /\ Bytes(a, pa, VkEnd(a) - pa) = Bytes(b, pb, VkEnd(b) - pb)
                   /\ GobDecoded(ga, InfoKinds) = GobDecoded(gb, InfoKinds) /\ GobSize(ga, InfoKinds) = NBytes(ga)
StepKeys(e, fs) ==
    LET in == fs[e.in]
        pk == fs["pk"].obs
        vk == fs["vk"].obs
        s == SplitPk(pk)
        n == IntAt(e.vk, 256, 4)
        m == IntAt(vk, 256, 4)
        half == 4 + 64*n
        end == PedersenSize(n)
    IN IF Failed(e) THEN [fs |-> (e.session :> Unknown("vk", FALSE, None, <<>>)), bad |-> If(in.honest /\ fs["evals"].honest, {"C13"}, "split key extraction fails")]
       ELSE [fs |-> (e.session :> Unknown("vk", in.honest, e.vk, <<>>)),
             bad |-> IF ~fs["pk"].honest THEN {}
                     ELSE IF PkOffsets(pk) = <<>> THEN {}
                     ELSE Tag({"C13"}, {"split proving key " \o w : w \in {q \in PkFiles : e.split[q] # s[q]}})
                          \cup (IF n < 0 \/ m < 0 THEN If(n < 0, {"C13"}, "split verifying key")
                                ELSE If(n # m \/ Bytes(e.vk, end - half, half) # Bytes(vk, end - half, half), {"C13"}, "commitment basis of the split key")
                                     \cup If(~SameVk(e.vk, vk), {"C13"}, "split verifying key")
                                     \cup If(e.commitmentKey # Bytes(e.vk, 0, end), {"C13"} \cup (IF n > 0 THEN {"C14"} ELSE {}), "commitment key file"))]

\* e.sol: the decimal numbers in the exported contract, in order; e.inputs: its number of public inputs
StepSol(e, fs) ==
    LET vk == fs[e.session].obs
        p == PedersenEnd(vk)
        want == Cat(<<Bytes(vk, p, 64), Bytes(vk, p + 128, 256), Bytes(vk, p + 448, 128), Bytes(vk, p + 580, VkEnd(vk) - p - 580)>>)
    IN [fs |-> NoFiles,
        bad |-> IF ~fs[e.session].honest THEN {}
                ELSE IF Failed(e) THEN {<<{"C24"}, "export fails">>}
                ELSE If(e.sol # Decimals(want), {"C24"}, "numbers in the contract")
                     \cup If(e.inputs # ToString(IntAt(vk, p + 576, 4) - 1), {"C24"}, "number of public inputs of the contract")]

\* a proof made with extracted keys by gnark; e.used: which public inputs the circuit constrains
StepProve(e, fs) ==
    LET props == {e.prop} \cup (IF e.committed THEN {"C14"} ELSE {})
    IN [fs |-> NoFiles,
        bad |-> IF ~e.honest THEN {}
                ELSE If(~e.proved, props, "no proof can be made: " \o e.error)
                     \cup If(e.proved /\ ~e.verified, props, "a proof of a true statement doesn't verify")
                     \cup If(\E i \in DOMAIN e.wrong : e.wrong[i] /\ e.used[i], props, "a proof verifies for other public inputs")]

\* two runs that must have had the same effect
StepSame(e, fs) == [fs |-> NoFiles, bad |-> If(e.a # e.b, {e.prop}, e.what)]
\* a command whose outcome the step states, because it doesn't depend on the content of files
StepExpect(e, fs) == [fs |-> NoFiles, bad |-> If((e.rc = 0) # e.ok, {e.prop}, e.what \o (IF e.ok THEN " fails" ELSE " succeeds"))]

Step(e, fs) == CASE IsInput(e) -> StepMade(e)
                 [] e.op = "p1n" -> StepP1n(e, fs) [] e.op = "p1c" -> StepP1c(e, fs) [] e.op = "p1v" -> StepP1v(e, fs)
                 [] e.op = "alter" -> StepAlter(e, fs)
                 [] e.op = "p1t" -> StepP1t(e, fs) [] e.op = "p2n" -> StepP2n(e, fs) [] e.op = "p2np" -> StepP2np(e, fs)
                 [] e.op = "p2c" -> StepP2c(e, fs) [] e.op = "p2v" -> StepP2v(e, fs)
                 [] e.op = "key" -> StepKey(e, fs) [] e.op = "keys" -> StepKeys(e, fs) [] e.op = "sol" -> StepSol(e, fs)
                 [] e.op = "prove" -> StepProve(e, fs) [] e.op = "same" -> StepSame(e, fs) [] e.op = "expect" -> StepExpect(e, fs)

Leaks(e) == IF "leaks" \in DOMAIN e /\ Len(e.leaks) > 0 THEN {<<{"C15"}, "a secret leaves the process: " \o e.leaks[1]>>} ELSE {}

\* a command's inputs stay as they are
Touched(e) == IF "touched" \in DOMAIN e /\ Len(e.touched) > 0 THEN {<<{"C18"}, "an input file changes: " \o e.touched[1]>>} ELSE {}

VARIABLES scn, at, fs
Init == scn \in 1..Len(Scenarios) /\ at = 0 /\ fs = NoFiles
\* one step of a scenario; reports are written out, so that all of them are seen
Next == LET steps == Scenarios[scn].steps
            e == steps[at + 1]
            r == Step(e, fs)
            bad == r.bad \cup Leaks(e) \cup Touched(e)
        IN /\ at < Len(steps)
           /\ \A b \in bad : EmitLine(Out, ToString(<<scn, at, b>>), ToJson([kind |-> "bad", scn |-> scn, name |-> Scenarios[scn].name, line |-> at + 1, op |-> e.op,
                                                                           props |-> SetToSeq(b[1]), what |-> b[2]]))
           /\ at' = at + 1 /\ scn' = scn
           /\ fs' = r.fs @@ fs
           /\ (at + 1 < Len(steps) \/ EmitLine(Out, "end " \o ToString(scn), ToJson([kind |-> "end", scn |-> scn, steps |-> Len(steps)])))
=============================================================================
