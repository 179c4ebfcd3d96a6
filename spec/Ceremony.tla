------------------------------ MODULE Ceremony ------------------------------
(***************************************************************************)
(* Whole ceremonies: behaviours of several contributors and verifiers who  *)
(* use the commands on the files of one directory in any order, write over *)
(* earlier files, branch off, switch circuits, verify against any starting *)
(* point, and extract keys at any time.  What a file is, is described by   *)
(* where it comes from: v is the version of its content, o the version it  *)
(* started from, n the number of contributions; strong: its secrets aren't *)
(* known to be 1, as those of a file nobody has contributed to (a proof    *)
(* under its keys needn't depend on all public inputs).                    *)
(* TLC generates behaviours by simulation; each is emitted as a plan that  *)
(* is run with the real commands and validated against Trace.tla.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Bn254

CONSTANTS Depth, MaxPower
\* the circuits: constraints, and whether gnark's prover can do them
Circuits == JsonDeserialize(EnvStr("ZK_IN", ""))
Out == EnvStr("ZK_OUT", "/dev/null")

Names1 == {"a", "b", "c1", "d"}
Names2 == {"o", "q", "r", "t"}
Part == 3
Session == "s3"
None == [none |-> TRUE]

VARIABLES f1, pp, f2, ev, keyed, split, circ, v, plan, done
vars == <<f1, pp, f2, ev, keyed, split, circ, v, plan, done>>

Empty == [x \in {} |-> 0]
Init == /\ f1 = Empty /\ pp = Empty /\ f2 = Empty /\ ev = None /\ keyed = None /\ split = None
        /\ circ = 0 /\ v = 0 /\ plan = <<>> /\ done = FALSE

\* nothing is repeated at once
Do(step) == /\ Len(plan) < Depth /\ ~\E j \in DOMAIN plan : j > Len(plan) - 4 /\ plan[j] = step
            /\ plan' = Append(plan, step) /\ v' = v + 1 /\ done' = done
Put(f, x, r) == (x :> r) @@ f
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Early == Len(plan) < Depth \div 4
Late == Len(plan) >= Depth \div 2
Keep1 == UNCHANGED <<pp, f2, ev, keyed, split, circ>>
Keep2 == UNCHANGED <<f1, pp, split, circ>>
Same(x, y) == x # None /\ y # None /\ x = y

\* ------------------------------------------------------------ phase 1
P1n == \E p \in 1..MaxPower, x \in Names1 :
    Do([op |-> "p1n", power |-> p, out |-> x]) /\ f1' = Put(f1, x, [power |-> p, v |-> v, o |-> 0 - 1, n |-> 0, strong |-> FALSE]) /\ Keep1
Made == \E p \in 1..MaxPower, x \in Names1, n \in 0..2, logs \in {"x", "unit"} :
    Do([op |-> "mk1", power |-> p, out |-> x, n |-> n, logs |-> logs]) /\ f1' = Put(f1, x, [power |-> p, v |-> v, o |-> v, n |-> n, strong |-> logs = "x" \/ n > 0]) /\ Keep1
Ppot == \E p \in 2..(MaxPower + 1) :
    Do([op |-> "mkppot", power |-> p, out |-> "pp"]) /\ pp' = Put(pp, "pp", p) /\ UNCHANGED <<f1, f2, ev, keyed, split, circ>>
P1t == \E q \in 1..MaxPower, x \in Names1 :
    /\ "pp" \in DOMAIN pp /\ q <= pp["pp"] /\ (~Late \/ v % 5 = 0)
    /\ Do([op |-> "p1t", in |-> "pp", out |-> x, original |-> pp["pp"], reduced |-> q])
    /\ f1' = Put(f1, x, [power |-> q, v |-> v, o |-> v, n |-> 0, strong |-> TRUE]) /\ Keep1
P1c == \E i \in DOMAIN f1, x \in Names1 :
    /\ i # x /\ f1[i].n < 5
    /\ Do([op |-> "p1c", in |-> i, out |-> x])
    /\ f1' = Put(f1, x, [f1[i] EXCEPT !.v = v, !.n = @ + 1, !.strong = TRUE]) /\ Keep1
\* of an own or another starting point, fresh or not; the file itself is one, too
P1v == \E i \in DOMAIN f1, b \in DOMAIN f1 \cup {"-"} :
    Do([op |-> "p1v", in |-> i, base |-> b]) /\ UNCHANGED f1 /\ Keep1

\* ------------------------------------------------------------ phase 2
Circuit == \E k \in DOMAIN Circuits :
    /\ k # circ /\ Do([op |-> "circuit", k |-> k]) /\ circ' = k
    /\ UNCHANGED <<f1, pp, f2, ev, keyed, split>>
Fits(i) == Circuits[circ].constraints <= 2^f1[i].power
P2n == \E i \in DOMAIN f1, x \in Names2 :
    /\ circ # 0 /\ (Fits(i) \/ v % 3 = 0) /\ Do([op |-> "p2n", in |-> i, out |-> x])
    /\ IF Fits(i) THEN /\ f2' = Put(f2, x, [circ |-> circ, from |-> f1[i].v, o |-> <<circ, f1[i].v>>, n |-> 0, strong |-> f1[i].strong])
                       /\ ev' = [circ |-> circ, from |-> f1[i].v]
       ELSE f2' = Drop(f2, x) /\ ev' = None
    /\ UNCHANGED keyed /\ Keep2
\* from parts, where it can be compared with the whole
P2np == \E i \in DOMAIN f1, r \in DOMAIN f2, x \in Names2 :
    /\ circ # 0 /\ x # r /\ f2[r].n = 0 /\ f2[r].circ = circ /\ f2[r].from = f1[i].v
    /\ Same(ev, [circ |-> circ, from |-> f1[i].v])
    /\ Do([op |-> "p2np", in |-> i, out |-> x, ref |-> r])
    /\ f2' = Put(f2, x, f2[r]) /\ UNCHANGED <<ev, keyed>> /\ Keep2
P2c == \E i \in DOMAIN f2, x \in Names2 :
    /\ i # x /\ f2[i].n < 6
    /\ Do([op |-> "p2c", in |-> i, out |-> x])
    /\ f2' = Put(f2, x, [f2[i] EXCEPT !.n = @ + 1]) /\ UNCHANGED <<ev, keyed>> /\ Keep2
P2v == \E i \in DOMAIN f2, b \in DOMAIN f2 :
    /\ Do([op |-> "p2v", in |-> i, base |-> b, same |-> (f2[b].n = 0 /\ f2[b].o = f2[i].o)])
    /\ UNCHANGED <<f2, ev, keyed>> /\ Keep2

\* ------------------------------------------------------------ keys
\* evaluations of another phase 1 with the same circuit give keys, but no good ones
Key == \E i \in DOMAIN f2 :
    /\ ev # None /\ ev.circ = f2[i].circ
    /\ Do([op |-> "key", in |-> i])
    /\ keyed' = [file |-> f2[i], name |-> i, good |-> (ev.from = f2[i].from /\ f2[i].strong), since |-> v]
    /\ UNCHANGED <<f2, ev>> /\ Keep2
\* compared with the whole keys, made just before
Keys == /\ keyed # None /\ keyed.since = v - 1
        /\ Do([op |-> "keys", in |-> keyed.name, session |-> Session])
        /\ split' = keyed /\ UNCHANGED <<f1, pp, f2, ev, keyed, circ>>
Sol == /\ split # None /\ Do([op |-> "sol", session |-> Session]) /\ UNCHANGED <<f1, pp, f2, ev, keyed, split, circ>>
CanProve(k) == k # None /\ k.file.circ = circ /\ Circuits[circ].provable
Prove == /\ CanProve(keyed) /\ keyed.good /\ Do([op |-> "prove"]) /\ UNCHANGED <<f1, pp, f2, ev, keyed, split, circ>>
ProveParts == /\ CanProve(split) /\ split.good /\ Do([op |-> "proveparts", session |-> Session, part |-> Part])
              /\ UNCHANGED <<f1, pp, f2, ev, keyed, split, circ>>

\* the way to go: a ceremony that gets somewhere
Some1 == Cardinality(DOMAIN f1) >= 2
Later(k) == v % k = k - 1
Finish == Len(plan) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<f1, pp, f2, ev, keyed, split, circ, v, plan>>
Next == \/ (Early \/ Later(9)) /\ (P1n \/ Made \/ Ppot)
        \/ P1t
        \/ ~Late /\ P1c
        \/ ~Late /\ P1c
        \/ Some1 /\ ~Late /\ P1v
        \/ Some1 /\ Later(4) /\ (P1v \/ P1c)
        \/ (~Early /\ circ = 0 /\ Circuit) \/ (Late /\ Later(8) /\ Circuit)
        \/ (~Early /\ DOMAIN f2 = {} /\ P2n) \/ (Later(5) /\ P2n)
        \/ P2c \/ P2c \/ P2v \/ P2np
        \/ Key \/ Keys \/ Keys \/ Keys \/ Prove \/ Prove \/ ProveParts \/ ProveParts \/ (Later(2) /\ Sol)
        \/ Finish

(***************************************************************************)
(* What the bookkeeping above must satisfy for plans to mean something     *)
(***************************************************************************)
Starts == \A x \in DOMAIN f1 : f1[x].power \in 1..MaxPower /\ f1[x].o <= f1[x].v /\ f1[x].v < v
Origins == \A x \in DOMAIN f2 : f2[x].o = <<f2[x].circ, f2[x].from>> /\ f2[x].circ \in DOMAIN Circuits
Evals == ev # None => ev.circ \in DOMAIN Circuits
Good == (keyed # None /\ keyed.good) => \E j \in DOMAIN plan : plan[j].op = "p2n"
\* complete plans are written out
Complete == done => EmitLine(Out, ToString(plan), ToJson(plan))
=============================================================================
