------------------------------- MODULE Bn254 -------------------------------
(***************************************************************************)
(* The scalar field of BN254 and the byte encodings of its group elements. *)
(*                                                                         *)
(* Scalars are hexadecimal strings without leading zeros, byte strings are *)
(* hexadecimal strings with two digits per byte.  A group element is       *)
(* represented by its discrete logarithm.  Every operator is evaluated by  *)
(* java/Bn254.java (a TLC module override); the definitions here only give *)
(* the arities.  The Java code is independent of gnark-crypto.             *)
(***************************************************************************)
EXTENDS Integers, Sequences

BAdd(a, b) == CHOOSE x \in {} : TRUE
BSub(a, b) == CHOOSE x \in {} : TRUE
BMul(a, b) == CHOOSE x \in {} : TRUE
BInv(a) == CHOOSE x \in {} : TRUE           \* 0 for 0
BPow(a, n) == CHOOSE x \in {} : TRUE        \* n a natural number
BOfInt(n) == CHOOSE x \in {} : TRUE
BOmega(n) == CHOOSE x \in {} : TRUE         \* gnark's generator of the subgroup of order n
BHashScalar(s) == CHOOSE x \in {} : TRUE    \* a nonzero scalar derived from the string s
BDot(a, b) == CHOOSE x \in {} : TRUE        \* sum of a[i] * b[i]
BGeom(first, ratio, n) == CHOOSE x \in {} : TRUE

Cat(s) == CHOOSE x \in {} : TRUE            \* concatenation of a sequence of byte strings
Sha(h) == CHOOSE x \in {} : TRUE            \* SHA-256
NBytes(h) == CHOOSE x \in {} : TRUE
Slice(h, from, n) == CHOOSE x \in {} : TRUE \* n bytes from offset from (0-based)
FlipBit(h, i) == CHOOSE x \in {} : TRUE    \* bit i, most significant bit of the first byte first
UInt(x, size) == CHOOSE x0 \in {} : TRUE    \* big-endian
FrBytes(x) == CHOOSE x0 \in {} : TRUE

G1C(s) == CHOOSE x \in {} : TRUE            \* compressed encodings of the sequence s of multiples of g1
G1U(s) == CHOOSE x \in {} : TRUE            \* uncompressed
G2C(s) == CHOOSE x \in {} : TRUE
G2U(s) == CHOOSE x \in {} : TRUE
\* compressed x * HashToG2(uncompressed(s g1) || uncompressed(sx g1) || challenge) with the one-byte tag dst
SPC(s, sx, challenge, dst, x) == CHOOSE x0 \in {} : TRUE
OffCurve1(salt) == CHOOSE x \in {} : TRUE   \* compressed encoding of no point
OffCurve2(salt) == CHOOSE x \in {} : TRUE
OffGroup2(salt) == CHOOSE x \in {} : TRUE   \* a point of the twist outside the group
G1Dec(s) == CHOOSE x \in {} : TRUE          \* decimal affine coordinates
G2Dec(s) == CHOOSE x \in {} : TRUE

BIDFT(v) == CHOOSE x \in {} : TRUE          \* inverse discrete Fourier transform over gnark's domain
G1Raw(h) == CHOOSE x \in {} : TRUE          \* uncompressed encodings of compressed points
G2Raw(h) == CHOOSE x \in {} : TRUE
PedG2(seed, x) == CHOOSE y \in {} : TRUE    \* raw x * HashToG2(seed), in the Pedersen key
Candidates(reads) == CHOOSE x \in {} : TRUE \* <<scalar, draw>>: what random bytes read may stand for
GobDecoded(h, kinds) == CHOOSE x \in {} : TRUE \* field values, as strings, of the first struct of a gob stream
GobSize(h, kinds) == CHOOSE x \in {} : TRUE

IntAt(h, off, size) == CHOOSE x \in {} : TRUE \* big-endian, -1 if it isn't there or is huge
Decimals(h) == CHOOSE x \in {} : TRUE       \* of the 32-byte words

EmitLine(file, key, line) == CHOOSE x \in {} : TRUE \* TRUE; appends the line once per key
EnvStr(name, default) == CHOOSE x \in {} : TRUE
=============================================================================
