---------------------------- MODULE KeyEncoding ----------------------------
EXTENDS Proofs, Bn254
KeyBytes(k) == Cat(<<G1C(<<k.s, k.sx>>), SPC(k.sp.s, k.sp.sx, k.sp.chal, k.sp.dst, k.x)>>)
=============================================================================
