import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.Arrays;
import java.util.concurrent.ConcurrentHashMap;

/** BN254 arithmetic and encodings, independent of the code under test. */
final class Curve {
    static final BigInteger P = new BigInteger("21888242871839275222246405745257275088696311157297823662689037894645226208583");
    static final BigInteger R = new BigInteger("21888242871839275222246405745257275088548364400416034343698204186575808495617");
    static final BigInteger TWO = BigInteger.TWO, ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
    static final BigInteger ROOT28 = new BigInteger("19103219067921713944291392827692070036145651957329286315305642004821462161904");
    static final BigInteger HALF = P.subtract(ONE).shiftRight(1);

    static BigInteger m(BigInteger a) { return a.mod(P); }

    // ---- Fp2 = Fp[u]/(u^2+1)
    static final class F2 {
        final BigInteger a, b; // a + b u
        F2(BigInteger a, BigInteger b) { this.a = a; this.b = b; }
        static F2 of(String a, String b) { return new F2(new BigInteger(a), new BigInteger(b)); }
        static final F2 ZERO2 = new F2(ZERO, ZERO), ONE2 = new F2(ONE, ZERO);
        F2 add(F2 o) { return new F2(m(a.add(o.a)), m(b.add(o.b))); }
        F2 sub(F2 o) { return new F2(m(a.subtract(o.a)), m(b.subtract(o.b))); }
        F2 neg() { return new F2(m(a.negate()), m(b.negate())); }
        F2 mul(F2 o) {
            BigInteger t0 = a.multiply(o.a), t1 = b.multiply(o.b);
            BigInteger t2 = a.add(b).multiply(o.a.add(o.b));
            return new F2(m(t0.subtract(t1)), m(t2.subtract(t0).subtract(t1)));
        }
        F2 sq() {
            return new F2(m(a.add(b).multiply(a.subtract(b))), m(a.multiply(b).shiftLeft(1)));
        }
        F2 scale(BigInteger k) { return new F2(m(a.multiply(k)), m(b.multiply(k))); }
        F2 inv() {
            BigInteger n = m(a.multiply(a).add(b.multiply(b)));
            if (n.signum() == 0) return ZERO2; // inv0
            BigInteger i = n.modInverse(P);
            return new F2(m(a.multiply(i)), m(b.negate().multiply(i)));
        }
        F2 conj() { return new F2(a, m(b.negate())); }
        boolean isZero() { return a.signum() == 0 && b.signum() == 0; }
        boolean isSquare() {
            BigInteger n = m(a.multiply(a).add(b.multiply(b)));
            return n.signum() == 0 || n.modPow(HALF, P).equals(ONE);
        }
        F2 sqrt() { // complex method, P = 3 mod 4
            if (isZero()) return this;
            if (b.signum() == 0) {
                BigInteger s = fpSqrt(a);
                if (s != null) return new F2(s, ZERO);
                s = fpSqrt(m(a.negate()));
                return new F2(ZERO, s);
            }
            BigInteger n = fpSqrt(m(a.multiply(a).add(b.multiply(b))));
            if (n == null) return null;
            BigInteger inv2 = TWO.modInverse(P);
            BigInteger d = m(a.add(n).multiply(inv2));
            BigInteger x = fpSqrt(d);
            if (x == null) { d = m(a.subtract(n).multiply(inv2)); x = fpSqrt(d); }
            if (x == null) return null;
            BigInteger y = m(b.multiply(x.shiftLeft(1).modInverse(P)));
            return new F2(x, y);
        }
        @Override public boolean equals(Object o) { return o instanceof F2 && ((F2) o).a.equals(a) && ((F2) o).b.equals(b); }
        @Override public int hashCode() { return a.hashCode() * 31 + b.hashCode(); }
    }
    static BigInteger fpSqrt(BigInteger a) {
        BigInteger s = a.modPow(P.add(ONE).shiftRight(2), P);
        return m(s.multiply(s)).equals(m(a)) ? s : null;
    }

    // ---- G1, affine {x,y} or null for infinity
    static final BigInteger[] G1 = {ONE, TWO};
    static BigInteger[] add1(BigInteger[] p, BigInteger[] q) {
        if (p == null) return q;
        if (q == null) return p;
        BigInteger l;
        if (p[0].equals(q[0])) {
            if (!p[1].equals(q[1]) || p[1].signum() == 0) return null;
            l = m(p[0].multiply(p[0]).multiply(BigInteger.valueOf(3)).multiply(p[1].shiftLeft(1).modInverse(P)));
        } else l = m(q[1].subtract(p[1]).multiply(m(q[0].subtract(p[0])).modInverse(P)));
        BigInteger x = m(l.multiply(l).subtract(p[0]).subtract(q[0]));
        return new BigInteger[]{x, m(l.multiply(p[0].subtract(x)).subtract(p[1]))};
    }
    /** Jacobian {X,Y,Z}+affine, null for infinity; never called with equal points unless handled */
    static BigInteger[] madd1(BigInteger[] p, BigInteger[] q) {
        if (p == null) return new BigInteger[]{q[0], q[1], ONE};
        BigInteger zz = m(p[2].multiply(p[2]));
        BigInteger u2 = m(q[0].multiply(zz)), s2 = m(m(q[1].multiply(p[2])).multiply(zz));
        BigInteger h = m(u2.subtract(p[0])), r = m(s2.subtract(p[1]));
        if (h.signum() == 0) {
            if (r.signum() != 0) return null;
            BigInteger[] d = add1(q, q);
            return new BigInteger[]{d[0], d[1], ONE};
        }
        BigInteger hh = m(h.multiply(h)), hhh = m(h.multiply(hh)), v = m(p[0].multiply(hh));
        BigInteger x = m(r.multiply(r).subtract(hhh).subtract(v.shiftLeft(1)));
        BigInteger y = m(r.multiply(v.subtract(x)).subtract(p[1].multiply(hhh)));
        return new BigInteger[]{x, y, m(p[2].multiply(h))};
    }
    static final BigInteger[][][] T1 = new BigInteger[32][256][];
    static {
        BigInteger[] base = G1;
        for (int w = 0; w < 32; w++) {
            BigInteger[] acc = null;
            for (int i = 1; i < 256; i++) { acc = add1(acc, base); T1[w][i] = acc; }
            base = add1(acc, base);
        }
    }
    static BigInteger[] mulG1(BigInteger k) {
        byte[] b = be(k.mod(R), 32);
        BigInteger[] acc = null;
        for (int w = 0; w < 32; w++) {
            int d = b[31 - w] & 0xff;
            if (d != 0) acc = madd1(acc, T1[w][d]);
        }
        if (acc == null) return null;
        BigInteger zi = acc[2].modInverse(P), zi2 = m(zi.multiply(zi));
        return new BigInteger[]{m(acc[0].multiply(zi2)), m(acc[1].multiply(m(zi2.multiply(zi))))};
    }

    // ---- G2
    static final F2[] G2 = {
        F2.of("10857046999023057135944570762232829481370756359578518086990519993285655852781", "11559732032986387107991004021392285783925812861821192530917403151452391805634"),
        F2.of("8495653923123431417604973247489272438418190587263600148770280649306958101930", "4082367875863433681332203403145435568316851327593401208105741076214120093531")};
    static final F2 B2 = new F2(BigInteger.valueOf(9), ONE).inv().scale(BigInteger.valueOf(3));
    static F2[] add2(F2[] p, F2[] q) {
        if (p == null) return q;
        if (q == null) return p;
        F2 l;
        if (p[0].equals(q[0])) {
            if (!p[1].equals(q[1]) || p[1].isZero()) return null;
            l = p[0].sq().scale(BigInteger.valueOf(3)).mul(p[1].scale(TWO).inv());
        } else l = q[1].sub(p[1]).mul(q[0].sub(p[0]).inv());
        F2 x = l.sq().sub(p[0]).sub(q[0]);
        return new F2[]{x, l.mul(p[0].sub(x)).sub(p[1])};
    }
    static F2[] madd2(F2[] p, F2[] q) {
        if (p == null) return new F2[]{q[0], q[1], F2.ONE2};
        F2 zz = p[2].sq(), u2 = q[0].mul(zz), s2 = q[1].mul(p[2]).mul(zz), h = u2.sub(p[0]), r = s2.sub(p[1]);
        if (h.isZero()) {
            if (!r.isZero()) return null;
            F2[] d = add2(q, q);
            return d == null ? null : new F2[]{d[0], d[1], F2.ONE2};
        }
        F2 hh = h.sq(), hhh = h.mul(hh), v = p[0].mul(hh);
        F2 x = r.sq().sub(hhh).sub(v.scale(TWO));
        return new F2[]{x, r.mul(v.sub(x)).sub(p[1].mul(hhh)), p[2].mul(h)};
    }
    static F2[] dbl2(F2[] p) {
        if (p == null || p[1].isZero()) return null;
        F2 a = p[0].sq(), b = p[1].sq(), c = b.sq();
        F2 d = p[0].add(b).sq().sub(a).sub(c).scale(TWO), e = a.scale(BigInteger.valueOf(3)), f = e.sq();
        F2 x = f.sub(d.scale(TWO));
        return new F2[]{x, e.mul(d.sub(x)).sub(c.scale(BigInteger.valueOf(8))), p[1].mul(p[2]).scale(TWO)};
    }
    static F2[] aff2(F2[] p) {
        if (p == null) return null;
        F2 zi = p[2].inv(), zi2 = zi.sq();
        return new F2[]{p[0].mul(zi2), p[1].mul(zi2.mul(zi))};
    }
    static F2[] mul2(F2[] q, BigInteger k) { // any point, k not reduced
        if (q == null) return null;
        F2[] acc = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) {
            acc = dbl2(acc);
            if (k.testBit(i)) acc = madd2(acc, q);
        }
        return aff2(acc);
    }
    static final F2[][][] T2 = new F2[32][256][];
    static {
        F2[] base = G2;
        for (int w = 0; w < 32; w++) {
            F2[] acc = null;
            for (int i = 1; i < 256; i++) { acc = add2(acc, base); T2[w][i] = acc; }
            base = add2(acc, base);
        }
    }
    static F2[] mulG2(BigInteger k) {
        byte[] b = be(k.mod(R), 32);
        F2[] acc = null;
        for (int w = 0; w < 32; w++) {
            int d = b[31 - w] & 0xff;
            if (d != 0) acc = madd2(acc, T2[w][d]);
        }
        return aff2(acc);
    }

    // ---- hash to G2 (RFC 9380 SVDW, as in gnark-crypto)
    static byte[] sha(byte[]... parts) {
        try {
            MessageDigest d = MessageDigest.getInstance("SHA-256");
            for (byte[] p : parts) d.update(p);
            return d.digest();
        } catch (Exception e) { throw new RuntimeException(e); }
    }
    static BigInteger[] hashFp(byte[] msg, byte[] dst, int count) {
        int len = count * 48, ell = (len + 31) / 32;
        byte[] dp = Arrays.copyOf(dst, dst.length + 1);
        dp[dst.length] = (byte) dst.length;
        byte[] b0 = sha(new byte[64], msg, new byte[]{(byte) (len >> 8), (byte) len, 0}, dp);
        byte[] bi = sha(b0, new byte[]{1}, dp);
        byte[] out = new byte[ell * 32];
        System.arraycopy(bi, 0, out, 0, 32);
        for (int i = 2; i <= ell; i++) {
            byte[] x = new byte[32];
            for (int j = 0; j < 32; j++) x[j] = (byte) (b0[j] ^ bi[j]);
            bi = sha(x, new byte[]{(byte) i}, dp);
            System.arraycopy(bi, 0, out, 32 * (i - 1), 32);
        }
        BigInteger[] r = new BigInteger[count];
        for (int i = 0; i < count; i++) r[i] = new BigInteger(1, Arrays.copyOfRange(out, i * 48, i * 48 + 48)).mod(P);
        return r;
    }
    static int sgn0(F2 z) {
        int s = z.a.testBit(0) ? 1 : 0;
        return z.a.signum() == 0 ? (z.b.testBit(0) ? 1 : 0) : s;
    }
    static final F2 Z = F2.ONE2;
    static F2 g(F2 x) { return x.sq().mul(x).add(B2); }
    static final F2 C1 = g(Z), C2 = Z.neg().scale(TWO.modInverse(P)), C3, C4;
    static {
        F2 t = Z.sq().scale(BigInteger.valueOf(3));
        F2 c = C1.neg().mul(t).sqrt();
        C3 = sgn0(c) == 0 ? c : c.neg();
        C4 = C1.scale(BigInteger.valueOf(4)).neg().mul(t.inv());
    }
    static F2[] svdw(F2 u) {
        F2 t1 = u.sq().mul(C1), t2 = F2.ONE2.add(t1);
        t1 = F2.ONE2.sub(t1);
        F2 t3 = t1.mul(t2).inv(), t4 = u.mul(t1).mul(t3).mul(C3);
        F2 x1 = C2.sub(t4), x2 = C2.add(t4), x3 = t2.sq().mul(t3).sq().mul(C4).add(Z);
        F2 x = g(x1).isSquare() ? x1 : g(x2).isSquare() ? x2 : x3;
        F2 y = g(x).sqrt();
        return new F2[]{x, sgn0(u) == sgn0(y) ? y : y.neg()};
    }
    static final F2 EU = F2.of("21575463638280843010398324269430826099269044274347216827212613867836435027261", "10307601595873709700152284273816112264069230130616436755625194854815875713954");
    static final F2 EV = F2.of("2821565182194536844548159561693502659359617185244120367078079554186484126554", "3505843767911556378687030309984248845540243509899259641013678093033130930403");
    static F2[] psi(F2[] p) { return p == null ? null : new F2[]{p[0].conj().mul(EU), p[1].conj().mul(EV)}; }
    static final BigInteger XGEN = new BigInteger("4965661367192848881");
    static F2[] clear(F2[] a) {
        F2[] p0 = mul2(a, XGEN), p1 = psi(add2(add2(p0, p0), p0)), p2 = psi(psi(p0)), p3 = psi(psi(psi(a)));
        return add2(add2(p0, p1), add2(p2, p3));
    }
    static F2[] hashG2(byte[] msg, byte[] dst) {
        BigInteger[] u = hashFp(msg, dst, 4);
        return clear(add2(svdw(new F2(u[0], u[1])), svdw(new F2(u[2], u[3]))));
    }

    // ---- encodings
    static byte[] be(BigInteger x, int n) {
        byte[] b = x.toByteArray(), r = new byte[n];
        int l = Math.min(n, b.length);
        System.arraycopy(b, b.length - l, r, n - l, l);
        return r;
    }
    static byte[] cat(byte[]... a) {
        int n = 0;
        for (byte[] x : a) n += x.length;
        byte[] r = new byte[n];
        n = 0;
        for (byte[] x : a) { System.arraycopy(x, 0, r, n, x.length); n += x.length; }
        return r;
    }
    static byte[] c1(BigInteger[] p) {
        byte[] r = new byte[32];
        if (p == null) { r[0] = 0x40; return r; }
        r = be(p[0], 32);
        r[0] |= p[1].compareTo(HALF) > 0 ? (byte) 0xC0 : (byte) 0x80;
        return r;
    }
    static byte[] u1(BigInteger[] p) {
        if (p == null) return new byte[64];
        return cat(be(p[0], 32), be(p[1], 32));
    }
    static byte[] c2(F2[] p) {
        byte[] r = new byte[64];
        if (p == null) { r[0] = 0x40; return r; }
        r = cat(be(p[0].b, 32), be(p[0].a, 32));
        BigInteger y = p[1].b.signum() == 0 ? p[1].a : p[1].b;
        r[0] |= y.compareTo(HALF) > 0 ? (byte) 0xC0 : (byte) 0x80;
        return r;
    }
    static byte[] u2(F2[] p) {
        if (p == null) return new byte[128];
        return cat(be(p[0].b, 32), be(p[0].a, 32), be(p[1].b, 32), be(p[1].a, 32));
    }
    static final char[] HEX = "0123456789abcdef".toCharArray();
    static String hex(byte[] b) {
        char[] c = new char[b.length * 2];
        for (int i = 0; i < b.length; i++) { c[2 * i] = HEX[(b[i] >> 4) & 15]; c[2 * i + 1] = HEX[b[i] & 15]; }
        return new String(c);
    }
    static byte[] unhex(String s) {
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; i++) b[i] = (byte) ((Character.digit(s.charAt(2 * i), 16) << 4) | Character.digit(s.charAt(2 * i + 1), 16));
        return b;
    }
    static final ConcurrentHashMap<BigInteger, BigInteger[]> M1 = new ConcurrentHashMap<>();
    static final ConcurrentHashMap<BigInteger, F2[]> M2 = new ConcurrentHashMap<>();
    static BigInteger[] g1(BigInteger k) {
        if (k.signum() == 0) return null;
        BigInteger[] r = M1.get(k);
        if (r == null) { r = mulG1(k); M1.put(k, r); }
        return r;
    }
    static F2[] g2(BigInteger k) {
        if (k.signum() == 0) return null;
        F2[] r = M2.get(k);
        if (r == null) { r = mulG2(k); M2.put(k, r); }
        return r;
    }
    static boolean high1(BigInteger y) { return y.compareTo(HALF) > 0; }
    static BigInteger[] decode1(byte[] b) {
        int m = b[0] & 0xC0;
        if (m == 0x40) return null;
        if (m == 0) throw new IllegalArgumentException("not compressed");
        byte[] c = b.clone();
        c[0] &= 0x3f;
        BigInteger x = new BigInteger(1, c), y = fpSqrt(m(x.multiply(x).multiply(x).add(BigInteger.valueOf(3))));
        if (y == null) throw new IllegalArgumentException("no point");
        return new BigInteger[]{x, high1(y) == (m == 0xC0) ? y : P.subtract(y)};
    }
    static F2[] decode2(byte[] b) {
        int m = b[0] & 0xC0;
        if (m == 0x40) return null;
        if (m == 0) throw new IllegalArgumentException("not compressed");
        byte[] c = b.clone();
        c[0] &= 0x3f;
        F2 x = new F2(new BigInteger(1, java.util.Arrays.copyOfRange(c, 32, 64)), new BigInteger(1, java.util.Arrays.copyOfRange(c, 0, 32)));
        F2 y = g(x).sqrt();
        if (y == null) throw new IllegalArgumentException("no point");
        boolean high = high1(y.b.signum() == 0 ? y.a : y.b);
        return new F2[]{x, high == (m == 0xC0) ? y : y.neg()};
    }
    /** a compressed encoding whose x is on no point of the curve */
    static byte[] offCurve1(int salt) {
        for (BigInteger x = new BigInteger(1, sha(new byte[]{1, (byte) salt})).mod(P);; x = m(x.add(ONE)))
            if (fpSqrt(m(x.modPow(BigInteger.valueOf(3), P).add(BigInteger.valueOf(3)))) == null) {
                byte[] r = be(x, 32);
                r[0] |= (byte) 0x80;
                return r;
            }
    }
    static byte[] offCurve2(int salt) {
        for (BigInteger x = new BigInteger(1, sha(new byte[]{2, (byte) salt})).mod(P);; x = m(x.add(ONE))) {
            F2 f = new F2(x, ONE);
            if (!g(f).isSquare()) {
                byte[] r = cat(be(f.b, 32), be(f.a, 32));
                r[0] |= (byte) 0x80;
                return r;
            }
        }
    }
    /** a point of the twist outside the group of order R */
    static byte[] offGroup2(int salt) {
        for (BigInteger x = new BigInteger(1, sha(new byte[]{3, (byte) salt})).mod(P);; x = m(x.add(ONE))) {
            F2 f = new F2(x, BigInteger.valueOf(7));
            if (g(f).isSquare()) {
                F2[] p = {f, g(f).sqrt()};
                if (mul2(p, R) != null) return c2(p);
            }
        }
    }
}
