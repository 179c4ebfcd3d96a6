-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line: which requests are accepted, and what the exit status *)
(* and the output files are.  TLC enumerates requests around the           *)
(* boundaries; each is given to the real command.                          *)
(*                                                                         *)
(* An argument is a string, or a name in capitals for a file or number     *)
(* which fits the others.                                                  *)
(***************************************************************************)
EXTENDS Commands, Integers, SequencesExt, Json, Bn254

Out == EnvStr("ZK_OUT", "/dev/null")

\* what fits a position
Fitting(kind) == CASE kind = "power" -> "POWER" [] kind = "in" -> "IN" [] kind = "out" -> "OUT" [] kind = "origin" -> "ORIGIN" [] kind = "original" -> "POWER"
                   [] kind = "reduced" -> "REDUCED" [] kind = "r1cs" -> "R1CS" [] kind = "parts" -> "PARTS" [] kind = "constraints" -> "CONSTRAINTS"
                   [] kind = "r1c" -> "R1C" [] kind = "batch" -> "BATCH" [] kind = "session" -> "SESSION"
Fit(c) == [i \in DOMAIN Signature(c) |-> Fitting(Signature(c)[i])]

\* <<text, is a number, its value>>
Numerals == {<<"-1", TRUE, 0 - 1>>, <<"0", TRUE, 0>>, <<"1", TRUE, 1>>, <<"2", TRUE, 2>>, <<"25", TRUE, 25>>, <<"26", TRUE, 26>>, <<"27", TRUE, 27>>,
             <<"28", TRUE, 28>>, <<"29", TRUE, 29>>, <<"30", TRUE, 30>>, <<"63", TRUE, 63>>, <<"64", TRUE, 64>>, <<"128", TRUE, 128>>,
             <<"255", TRUE, 255>>, <<"256", TRUE, 256>>, <<"257", TRUE, 257>>, <<"258", TRUE, 258>>, <<"282", TRUE, 282>>, <<"65537", TRUE, 65537>>,
             <<"-255", TRUE, 0 - 255>>, <<"-254", TRUE, 0 - 254>>, <<"2147483647", TRUE, 2147483647>>}
\* numbers of more than 31 bits, and texts that are no numbers
NoNumerals == {"", "abc", "1.5", "2.0", "3 ", " 3", "0x3", "3x", "1e1", "--", "4294967297", "4294967298", "18446744073709551617", "9223372036854775810", "99999999999999999999999"}
Texts == {n[1] : n \in Numerals} \cup NoNumerals
Value(t) == (CHOOSE n \in Numerals : n[1] = t)[3]
IsNumeral(t) == \E n \in Numerals : n[1] = t

PowerOk(t) == IsNumeral(t) /\ Value(t) >= 1 /\ Value(t) <= 26
PairOk(o, r) == IsNumeral(o) /\ IsNumeral(r) /\ 1 <= Value(r) /\ Value(r) <= Value(o) /\ Value(o) <= 28

(***************************************************************************)
(* Requests [cmd, args, expect, why]                                       *)
(*   ok      exit status 0, all outputs                                    *)
(*   reject  another exit status, and no output                            *)
(*   fail    another exit status                                           *)
(*   pass    not rejected, whether or not the operation can be done        *)
(***************************************************************************)
R(c, args, expect, why) == [cmd |-> c, args |-> args, expect |-> expect, why |-> why]
N(c) == Len(Signature(c))
More == <<"extra", "more">>
Counts == {R(c, IF n <= N(c) THEN SubSeq(Fit(c), 1, n) ELSE Fit(c) \o SubSeq(More, 1, n - N(c)), IF n = N(c) THEN "ok" ELSE "reject", "number of arguments") :
              <<c, n>> \in {<<c, n>> \in Names \X (0..8) : n <= N(c) + 2}}
Replaced(c, i, a) == [Fit(c) EXCEPT ![i] = a]
Powers == {R("p1n", <<t, "OUT">>, IF PowerOk(t) THEN "pass" ELSE "reject", "power") : t \in Texts}
\* 28 twice, each with every text; 3 is the power of the file
Pairs == {R("p1t", <<"IN", "OUT", o, r>>, IF PairOk(o, r) THEN "pass" ELSE "reject", "powers") :
             <<o, r>> \in (Texts \X {"1", "2", "28", "29"}) \cup ({"1", "2", "27", "28"} \X Texts) \cup {<<n[1], m[1]>> : <<n, m>> \in Numerals \X Numerals}}
Positions(c, kinds) == {i \in DOMAIN Signature(c) : Signature(c)[i] \in kinds}
Numbers == {R("p2np", Replaced("p2np", i, t), "reject", "number") : <<i, t>> \in Positions("p2np", {"constraints", "r1c", "batch"}) \X (NoNumerals \ {"4294967297", "4294967298", "9223372036854775810"})}
           \cup {R("p2np", Replaced("p2np", i, t), "fail", "number of the circuit") : <<i, t>> \in Positions("p2np", {"constraints", "r1c"}) \X {"-1", "0", "1000"}}
           \cup {R("p2np", Replaced("p2np", i, t), "fail", "batch size") : <<i, t>> \in Positions("p2np", {"batch"}) \X {"-1", "0"}}
\* files that can't be read
Unreadable == {R(c, Replaced(c, i, a), "fail", "unreadable input") :
                  <<c, i, a>> \in {<<c, i, a>> \in Names \X (1..6) \X {"NOWHERE", "DIRECTORY", "EMPTY", ""} : i \in Positions(c, {"in", "origin", "r1cs"})}}
              \cup {R("p2np", Replaced("p2np", 2, "NOWHERE"), "fail", "unreadable input"), R("sol", <<"NOWHERE">>, "fail", "unreadable input")}
\* outputs that can't be made
Unwritable == {R(c, Replaced(c, i, a), "fail", "unwritable output") :
                  <<c, i, a>> \in {<<c, i, a>> \in Names \X (1..6) \X {"NOWHERE/x", "DIRECTORY", ""} : i \in Positions(c, {"out"})}}
              \cup {R("keys", <<"IN", "NOWHERE/x">>, "fail", "unwritable output")}
\* two arguments the wrong way round
Swapped == {R("p1c", <<"OUT", "IN">>, "fail", "swapped"), R("p1vt", <<"ORIGIN", "IN">>, "fail", "swapped"), R("p2v", <<"ORIGIN", "IN">>, "fail", "swapped"),
            R("p2c", <<"OUT", "IN">>, "fail", "swapped"), R("p2n", <<"R1CS", "IN", "OUT">>, "fail", "swapped"), R("p2n", <<"IN", "OUT", "R1CS">>, "fail", "swapped"),
            R("p1t", <<"IN", "OUT", "REDUCED", "POWER">>, "reject", "swapped"), R("keys", <<"SESSION", "IN">>, "fail", "swapped"), R("p1t", <<"OUT", "IN", "POWER", "REDUCED">>, "fail", "swapped"),
            R("p1vt", <<"IN", "OTHER">>, "fail", "another origin"), R("p1v", <<"ORIGIN">>, "fail", "no contributions"), R("p1vt", <<"IN", "IN">>, "pass", "itself"),
            R("p2v", <<"IN", "OTHER2">>, "fail", "another origin")}

Requests == Counts \cup Powers \cup Pairs \cup Numbers \cup Unreadable \cup Unwritable \cup Swapped

\* one state per request; the property of the specification itself: every number of arguments but one is rejected, and every power out of range
VARIABLE r
Init == r \in Requests
Next == UNCHANGED r
Sane == /\ (r.expect \in {"ok", "pass"} => Len(r.args) = N(r.cmd))
        /\ (r.cmd = "p1n" /\ r.expect = "pass" => PowerOk(r.args[1]))
        /\ EmitLine(Out, ToString(r), ToJson(r))
=============================================================================
