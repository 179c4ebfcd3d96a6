------------------------------- MODULE Damage -------------------------------
(***************************************************************************)
(* Damaged files: every cut (a proper prefix) and every flipped bit of     *)
(* files of each kind, with the commands that must fail on them.  A cut    *)
(* concerns a command if the command needs what was cut off; a flipped bit *)
(* concerns verification if it changes what the bytes stand for.           *)
(***************************************************************************)
EXTENDS Inputs, Json

Out == EnvStr("ZK_OUT", "/dev/null")
Deep == EnvStr("ZK_DEEP", "0") = "1"

Mk1(name, power, logs, n) == [name |-> name, op |-> "mk1", junk |-> "no", left |-> 0, out |-> "o", power |-> power, logs |-> logs, n |-> n]
Mk2(name, witness, public, committed, domain, zeros, n) ==
    [name |-> name, op |-> "mk2", junk |-> "no", left |-> 0, out |-> "o", logs |-> "x", wires |-> witness + public + committed, witness |-> witness, public |-> public,
     committed |-> committed, constraints |-> domain, domain |-> domain, zeros |-> zeros, n |-> n]
Mkev(name, wires, public, committed) == [name |-> name, op |-> "mkev", out |-> "o", logs |-> "x", wires |-> wires, public |-> public, committed |-> committed, zeros |-> "none"]
Mkppot(name, power) == [name |-> name, op |-> "mkppot", out |-> "o", power |-> power, logs |-> "pp", random |-> FALSE]

\* files without contributions are starting points
Files == {Mk1("origin1", 2, "pp", 0), Mk2("origin2", 2, 2, 0, 4, "some", 0), Mk1("p1.1.1", 1, "unit", 1), Mk1("p1.2.2", 2, "unit", 2), Mk2("p2.a", 3, 2, 0, 4, "some", 2), Mk2("p2.b", 2, 1, 2, 2, "none", 1),
          Mkev("ev.a", 5, 2, 0), Mkev("ev.b", 5, 1, 2), Mkppot("ppot.2", 2)}
         \cup (IF Deep THEN {Mk1("p1.3.1", 3, "unit", 1), Mk1("p1.1.4", 1, "unit", 4), 
                             Mk2("p2.c", 9, 1, 0, 8, "none", 1), Mk2("p2.d", 1, 3, 0, 2, "all", 5), Mkppot("ppot.3", 3)} ELSE {})

Content(f) == MadeBytes(f)
\* start and end of the parameters
ParamsStart(f) == CASE f.op = "mk1" -> 3 [] f.op = "mk2" -> NBytes(HeaderBytes2(Made2(f)))
ParamsEnd(f) == CASE f.op = "mk1" -> 3 + ParamsSize(f.power)
                  [] f.op = "mk2" -> ParamsStart(f) + 96 + 32*(f.domain - 1 + f.witness)

\* commands that need what a cut takes away; the name says in which role the file is given
NeedBeyond(f, k) ==
    CASE f.op = "mk1" -> IF f.n = 0 THEN {"p1vt origin", "p1c", "p2n"}
                         ELSE {"p1v", "p1c"} \cup (IF k < ParamsEnd(f) THEN {"p2n", "p2np"} ELSE {})
      [] f.op = "mk2" -> IF f.n = 0 THEN {"p2v origin", "p2c", "key"}
                         ELSE {"p2v", "p2c"} \cup (IF k < ParamsEnd(f) THEN {"key", "keys"} ELSE {})
      [] f.op = "mkev" -> {"key evals", "keys evals"}
      [] f.op = "mkppot" -> {"p1t", "p1t less"}

\* the other bits of a compressed point at infinity mean nothing
AtInfinity(f, byte) ==
    /\ f.op = "mk2" /\ byte >= ParamsStart(f) + 96 /\ byte < ParamsEnd(f)
    /\ LET i == (byte - ParamsStart(f) - 96) \div 32 + 1
           m == Made2(f)
       IN (m.z \o m.pkk)[i] = FZero
Meaningful(f, bit) == ~AtInfinity(f, bit \div 8) \/ (((bit \div 8) - ParamsStart(f)) % 32 = 0 /\ bit % 8 < 2)

\* a cut between two elements
AtEdge(f, k) == f.op \in {"mk1", "mk2"} /\ k >= ParamsStart(f) /\ (k - ParamsStart(f)) % 32 = 0
Size(f) == NBytes(Content(f))
Cuts(f) == {[file |-> f.name, how |-> "cut", at |-> k, edge |-> AtEdge(f, k), cmds |-> SetToSeq(NeedBeyond(f, k))] : k \in 0..(Size(f) - 1)}
Flips(f) == IF f.op \notin {"mk1", "mk2"} \/ f.n = 0 THEN {}
            ELSE {[file |-> f.name, how |-> "flip", at |-> b, edge |-> FALSE, cmds |-> <<IF f.op = "mk1" THEN "p1v" ELSE "p2v">>] :
                     b \in {b \in (IF f.op = "mk1" THEN 0 ELSE 8*ParamsStart(f))..(8*Size(f) - 1) : Meaningful(f, b)}}

(***************************************************************************)
(* Bytes that stand for no point of the group, in place of one: whichever  *)
(* command computes with the element or copies it must refuse them.        *)
(***************************************************************************)
\* the elements: where they begin and the group they are of
At1(o, n) == {[at |-> o + 32*i, g |-> 1] : i \in 0..(n - 1)}
At2(o, n) == {[at |-> o + 64*i, g |-> 2] : i \in 0..(n - 1)}
ElementsIn(f) ==
    CASE f.op = "mk1" -> At1(3, 4*N(f.power) - 1) \cup At2(3 + 32*(4*N(f.power) - 1), N(f.power) + 1)
      [] f.op = "mk2" -> At1(ParamsStart(f), 1) \cup At2(ParamsStart(f) + 32, 1) \cup At1(ParamsStart(f) + 96, f.domain - 1 + f.witness)
      [] f.op = "mkev" -> LET w == f.wires
                              v == 128 + 3*4 + 128*w
                          IN At1(0, 2) \cup At2(64, 1) \cup At1(132, w) \cup At1(136 + 32*w, w) \cup At2(140 + 64*w, w)
                             \cup At1(v + 4, f.public) \cup At1(v + 8 + 32*f.public, f.committed)
      [] f.op = "mkppot" -> {[at |-> 64*i, g |-> 3] : i \in 1..(2*N(f.power) - 1)} \cup {[at |-> 64*(2*N(f.power)) + 128*i, g |-> 4] : i \in 0..(N(f.power) - 1)}
                            \cup {[at |-> 64*(4*N(f.power)) + 64*i, g |-> 3] : i \in 0..(2*N(f.power) - 1)} \cup {[at |-> 64*(6*N(f.power)), g |-> 4]}
RecordElements(f) ==
    CASE f.op = "mk1" -> {[at |-> ParamsEnd(f) + RecordSize*r + RecordLayout[q], g |-> IF q \in RecordG2 THEN 2 ELSE 1] : r \in 0..(f.n - 1), q \in DOMAIN RecordLayout}
      [] f.op = "mk2" -> {[at |-> ParamsEnd(f) + 192*r + RecordLayout2[q], g |-> IF q = "spx" THEN 2 ELSE 1] : r \in 0..(f.n - 1), q \in DOMAIN RecordLayout2}
      [] OTHER -> {}
\* x = 0, y = 1 is on neither curve
NoPoints(g, o) == CASE g = 1 -> {OffCurve1(o)} [] g = 2 -> {OffCurve2(o), OffGroup2(o)}
                    [] g = 3 -> {Cat(<<FrBytes(FZero), FrBytes(FOne)>>)} [] g = 4 -> {Cat(<<FrBytes(FZero), FrBytes(FZero), FrBytes(FZero), FrBytes(FOne)>>)}
\* the elements a conversion to the power below keeps
PrefixOf(f) ==
    LET n == N(f.power)
        m == N(f.power - 1)
    IN {64*i : i \in 1..(2*m - 1)} \cup {64*2*n + 128*i : i \in 0..(m - 1)} \cup {64*(4*n + i) : i \in 0..(m - 1)} \cup {64*(5*n + i) : i \in 0..(m - 1)} \cup {64*6*n}
\* of a starting file, what the first contribution updates: tau, alpha and beta in both groups
StartOf(f) == LET n == N(f.power) IN {3 + 32, 3 + 32*(2*n - 1), 3 + 32*(3*n - 1), 3 + 32*(4*n - 1) + 64, 3 + 32*(4*n - 1) + 64*n}
\* commands that use the element
Users(f, e) ==
    CASE f.op = "mk1" -> IF e.at >= ParamsEnd(f) THEN {"p1v", "p1c"} ELSE IF f.n = 0 THEN {"p1c", "p2n"} \cup (IF e.at \in StartOf(f) THEN {"p1vt origin"} ELSE {}) ELSE {"p1v", "p1c", "p2n", "p2np"}
      [] f.op = "mk2" -> IF e.at >= ParamsEnd(f) THEN {"p2v", "p2c"} ELSE IF f.n = 0 THEN {"p2v origin", "p2c", "key", "keys"} ELSE {"p2v", "p2c", "key", "keys"}
      [] f.op = "mkev" -> {"key evals", "keys evals"}
      [] f.op = "mkppot" -> {"p1t"} \cup (IF e.at \in PrefixOf(f) THEN {"p1t less"} ELSE {})
NoPointsIn(f) == UNION {{[file |-> f.name, how |-> "nopoint", at |-> e.at, with |-> b, edge |-> TRUE, cmds |-> SetToSeq(Users(f, e))] : b \in NoPoints(e.g, e.at)}
                          : e \in ElementsIn(f) \cup RecordElements(f)}

\* circuits, made by the compiler: what was made, which command reads it and its size; initialization needs all of them
Circuits == ndJsonDeserialize(EnvStr("ZK_CIRCUITS", ""))
CircuitCuts(f) == {[file |-> f.name, how |-> "cut", at |-> k, edge |-> FALSE, cmds |-> <<f.cmd>>] : k \in 0..(f.size - 1)}

\* what a file is verified against, or what is verified against it
Partner(f) == CASE f.op = "mk1" -> FileBytes(IF f.n = 0 THEN Contributed1(Start1(f), "p", 2) ELSE Start1(f))
                [] f.op = "mk2" -> FileBytes2(IF f.n = 0 THEN Contributed2(Origin2(f), "p", 2) ELSE Origin2(f))
                [] OTHER -> ""

VARIABLES file, done
Init == file \in Files \cup Range(Circuits) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED file
        /\ IF file.op = "circuit" THEN \A d \in CircuitCuts(file) : EmitLine(Out, file.name \o ToString(d.at), ToJson(d))
           ELSE /\ EmitLine(Out \o ".files", file.name, ToJson([file |-> file, bytes |-> Content(file), base |-> Partner(file)]))
                /\ \A d \in Cuts(file) \cup Flips(file) \cup NoPointsIn(file) :
                      EmitLine(Out, file.name \o d.how \o ToString(d.at) \o (IF d.how = "nopoint" THEN d.with ELSE ""), ToJson(d))
=============================================================================
