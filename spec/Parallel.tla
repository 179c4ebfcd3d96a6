------------------------------ MODULE Parallel ------------------------------
(***************************************************************************)
(* Parallel loops: 0..n-1 is divided into ranges, each range is processed  *)
(* by a worker of its own, and the loop ends when all workers have.        *)
(*                                                                         *)
(* Model: every interleaving of the workers of every loop up to MaxN and   *)
(* MaxTasks.  Ranges recorded from the real loop (ZK_IN) must be a         *)
(* partition, and the loop must not have ended before its workers.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Bn254

CONSTANTS MaxN, MaxTasks

\* the division: the first n % t ranges have one index more; never more ranges than indices
Tasks(n, cpus) == IF n < cpus THEN n ELSE cpus
Division(n, cpus) ==
    LET t == Tasks(n, cpus)
        size == IF t = 0 THEN 0 ELSE n \div t
        more == IF t = 0 THEN 0 ELSE n % t
        Min(a, b) == IF a < b THEN a ELSE b
        from(i) == i * size + Min(i, more)
    IN [i \in 1..t |-> <<from(i - 1), from(i)>>]

\* half-open ranges in any order
Partition(n, ranges) ==
    /\ \A i \in DOMAIN ranges : 0 <= ranges[i][1] /\ ranges[i][1] <= ranges[i][2] /\ ranges[i][2] <= n
    /\ \A i, j \in DOMAIN ranges : i # j => (ranges[i][2] <= ranges[j][1] \/ ranges[j][2] <= ranges[i][1] \/ ranges[i][1] = ranges[i][2] \/ ranges[j][1] = ranges[j][2])
    /\ LET size[i \in 0..Len(ranges)] == IF i = 0 THEN 0 ELSE size[i - 1] + ranges[i][2] - ranges[i][1] IN size[Len(ranges)] = n

VARIABLES n, cpus, spawned, at, count, main
vars == <<n, cpus, spawned, at, count, main>>
D == Division(n, cpus)
Init == /\ n \in 0..MaxN /\ cpus \in 1..MaxTasks
        /\ spawned = 0 /\ at = [w \in 1..MaxTasks |-> 0] /\ count = [i \in 0..(MaxN - 1) |-> 0] /\ main = "spawning"
Spawn == /\ main = "spawning"
         /\ IF spawned < Len(D) THEN spawned' = spawned + 1 /\ at' = [at EXCEPT ![spawned + 1] = D[spawned + 1][1]] /\ UNCHANGED main
            ELSE main' = "waiting" /\ UNCHANGED <<spawned, at>>
         /\ UNCHANGED <<n, cpus, count>>
Ended(w) == w <= spawned /\ at[w] = D[w][2]
Work(w) == /\ w <= spawned /\ ~Ended(w)
           /\ count' = [count EXCEPT ![at[w]] = @ + 1] /\ at' = [at EXCEPT ![w] = @ + 1]
           /\ UNCHANGED <<n, cpus, spawned, main>>
Join == main = "waiting" /\ (\A w \in 1..Len(D) : Ended(w)) /\ main' = "ended" /\ UNCHANGED <<n, cpus, spawned, at, count>>
Next == Spawn \/ Join \/ \E w \in 1..MaxTasks : Work(w)

DivisionIsPartition == Partition(n, D)
OnceAtMost == \A i \in DOMAIN count : count[i] <= 1
AllAtTheEnd == main = "ended" => \A i \in 0..(n - 1) : count[i] = 1
Balanced == \A v, w \in DOMAIN D : D[v][2] - D[v][1] <= D[w][2] - D[w][1] + 1

(***************************************************************************)
(* Recorded loops [n, cpus, calls, finished]                               *)
(***************************************************************************)
In == EnvStr("ZK_IN", "")
Out == EnvStr("ZK_OUT", "/dev/null")
Loops == IF In = "" THEN <<>> ELSE ndJsonDeserialize(In)
Bad(r) == IF ~Partition(r.n, r.calls) THEN "indices aren't processed exactly once" ELSE IF ~r.finished THEN "the loop ends before its workers" ELSE ""
ASSUME \A i \in DOMAIN Loops : Bad(Loops[i]) = "" \/ EmitLine(Out, ToString(i), ToJson([loop |-> Loops[i], what |-> Bad(Loops[i])]))
=============================================================================
