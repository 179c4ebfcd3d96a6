------------------------------- MODULE Phase2 -------------------------------
(***************************************************************************)
(* Phase 2 (circuit specific): contribution and verification.  A file is a *)
(* record                                                                  *)
(*   hdr        wires witness public committed constraints domain          *)
(*   n          number of contributions                                    *)
(*   delta1, delta2                                                        *)
(*   z          domain-1 points, pkk: witness points (both over delta)     *)
(*   contribs   records [delta, key, hash]                                 *)
(*   form       malformed encodings                                        *)
(* Initialization from a circuit is in Circuit.tla.                        *)
(***************************************************************************)
EXTENDS Proofs

CONSTANT Hash2(_)      \* SHA-256 of the points of a record

HeaderFields == {"wires", "witness", "public", "committed", "constraints", "domain"}

Challenge2(f) == IF f.n = 0 THEN NoHash ELSE f.contribs[f.n].hash
Sealed2(r) == [r EXCEPT !.hash = Hash2(r)]

\* sec: delta and the blinding s
Contribute2(f, sec) ==
    LET di == FInv(sec.delta)
        r == [delta |-> FMul(f.delta1, sec.delta), key |-> Key(sec.s, sec.delta, Challenge2(f), 1), hash |-> NoHash]
    IN [f EXCEPT !.n = @ + 1, !.delta1 = FMul(@, sec.delta), !.delta2 = FMul(@, sec.delta),
                 !.z = Scaled(@, di), !.pkk = Scaled(@, di),
                 !.contribs = Append(SubSeq(@, 1, f.n), Sealed2(r))]

RecordFailing2(r, prevDelta, prevHash) ==
    LET sp == SPof(r.key.s, r.key.sx, prevHash, 1)
    IN (IF r.key.s = FZero \/ r.key.sx = FZero THEN {"degenerate"} ELSE {})
       \cup (IF PairSame(r.key.s, r.key.sx, r.key, sp) THEN {} ELSE {"pok"})
       \cup (IF PairSame(prevDelta, r.delta, r.key, sp) THEN {} ELSE {"upd"})
       \cup (IF r.hash = Hash2(r) THEN {} ELSE {"hash"})

PrevDelta(f, o, j) == IF j = 1 THEN o.delta1 ELSE f.contribs[j - 1].delta
PrevHash2(f, j) == IF j = 1 THEN NoHash ELSE f.contribs[j - 1].hash

\* e(in_i, d2) = e(or_i, g2) for every i
UpdatedBy(in, or, d2, g2) == Len(in) = Len(or) /\ \A i \in DOMAIN or : FMul(in[i], d2) = FMul(or[i], g2)

Failing2(f, o) ==
    IF f.form # <<>> THEN {"form"}
    ELSE IF f.n < 1 THEN {"empty"}
    ELSE IF \E h \in HeaderFields : f.hdr[h] # o.hdr[h] THEN {"header"}
    ELSE IF Len(f.contribs) < f.n THEN {"truncated"}
    ELSE (IF FMul(o.delta1, f.delta2) = FMul(f.delta1, o.delta2) THEN {} ELSE {"delta12"})
         \cup (IF UpdatedBy(f.z, o.z, f.delta2, o.delta2) THEN {} ELSE {"z"})
         \cup (IF UpdatedBy(f.pkk, o.pkk, f.delta2, o.delta2) THEN {} ELSE {"pkk"})
         \cup UNION {RecordFailing2(f.contribs[j], PrevDelta(f, o, j), PrevHash2(f, j)) : j \in 1..f.n}
         \cup (IF f.contribs[f.n].delta = f.delta1 THEN {} ELSE {"final"})

Accepts2(f, o) == Failing2(f, o) = {}

(***************************************************************************)
(* The meaning of acceptance (C10, C11)                                    *)
(***************************************************************************)
ProperUpdate2(r, prevDelta, prevHash) ==
    LET d == SecretOf(r.key)
    IN /\ r.key.s # FZero /\ d # FZero /\ r.key = Key(r.key.s, d, prevHash, 1)
       /\ r.delta = FMul(prevDelta, d)
       /\ r.hash = Hash2(r)

WellFormed2(f, o) ==
    /\ f.form = <<>> /\ f.n >= 1 /\ Len(f.contribs) >= f.n
    /\ f.hdr = o.hdr
    /\ \A j \in 1..f.n : ProperUpdate2(f.contribs[j], PrevDelta(f, o, j), PrevHash2(f, j))
    /\ LET d == FDiv(f.contribs[f.n].delta, o.delta1)
       IN /\ f.delta1 = FMul(o.delta1, d) /\ f.delta2 = FMul(o.delta2, d)
          /\ f.z = Scaled(o.z, FInv(d)) /\ f.pkk = Scaled(o.pkk, FInv(d))
=============================================================================
