import java.io.FileOutputStream;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.HashMap;
import java.util.concurrent.ConcurrentHashMap;
import java.util.stream.IntStream;
import tlc2.value.impl.*;

/** Overrides of the operators of Bn254.tla. Scalars are lower case hexadecimal strings without leading zeros. */
public final class Bn254 {
    static String str(Value v) { return ((StringValue) v).val.toString(); }
    static BigInteger num(Value v) { return new BigInteger(str(v), 16); }
    static Value val(BigInteger x) { return new StringValue(x.mod(Curve.R).toString(16)); }
    static Value txt(String s) { return new StringValue(s); }
    static int in(Value v) { return ((IntValue) v).val; }
    static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }

    public static Value BAdd(Value a, Value b) { return val(num(a).add(num(b))); }
    public static Value BSub(Value a, Value b) { return val(num(a).subtract(num(b))); }
    public static Value BMul(Value a, Value b) { return val(num(a).multiply(num(b))); }
    public static Value BInv(Value a) { BigInteger x = num(a); return val(x.signum() == 0 ? x : x.modInverse(Curve.R)); }
    public static Value BPow(Value a, Value n) { return val(num(a).modPow(BigInteger.valueOf(in(n)), Curve.R)); }
    public static Value BOfInt(Value n) { return val(BigInteger.valueOf(in(n))); }
    public static Value BOmega(Value n) { return val(Curve.ROOT28.modPow(BigInteger.valueOf((1L << 28) / in(n)), Curve.R)); }
    /** a nonzero scalar derived from a string */
    public static Value BHashScalar(Value s) {
        BigInteger x = new BigInteger(1, Curve.sha(str(s).getBytes(StandardCharsets.UTF_8))).mod(Curve.R);
        return val(x.signum() == 0 ? BigInteger.ONE : x);
    }
    /** sum of a[i]*b[i] */
    public static Value BDot(Value a, Value b) {
        Value[] x = seq(a), y = seq(b);
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < x.length; i++) s = s.add(num(x[i]).multiply(num(y[i])));
        return val(s);
    }
    /** <<first, first*ratio, ...>> */
    public static Value BGeom(Value first, Value ratio, Value n) {
        Value[] r = new Value[in(n)];
        BigInteger x = num(first), q = num(ratio);
        for (int i = 0; i < r.length; i++) { r[i] = val(x); x = x.multiply(q).mod(Curve.R); }
        return new TupleValue(r);
    }

    // ---- bytes, as hexadecimal strings
    public static Value Cat(Value s) {
        StringBuilder b = new StringBuilder();
        for (Value v : seq(s)) b.append(str(v));
        return txt(b.toString());
    }
    public static Value Sha(Value h) { return txt(Curve.hex(Curve.sha(Curve.unhex(str(h))))); }
    public static Value NBytes(Value h) { return IntValue.gen(str(h).length() / 2); }
    public static Value Slice(Value h, Value from, Value n) { return txt(str(h).substring(2 * in(from), 2 * (in(from) + in(n)))); }
    public static Value FlipBit(Value h, Value i) {
        byte[] b = Curve.unhex(str(h));
        b[in(i) / 8] ^= (byte) (0x80 >> (in(i) % 8));
        return txt(Curve.hex(b));
    }
    public static Value UInt(Value x, Value size) { return txt(Curve.hex(Curve.be(BigInteger.valueOf(in(x)), in(size)))); }
    public static Value FrBytes(Value x) { return txt(Curve.hex(Curve.be(num(x), 32))); }
    interface Enc { byte[] of(BigInteger x); }
    static Value each(Value s, Enc e) {
        Value[] x = seq(s);
        String[] r = new String[x.length];
        IntStream st = IntStream.range(0, x.length);
        if (x.length > 16) st = st.parallel();
        st.forEach(i -> r[i] = Curve.hex(e.of(num(x[i]))));
        return txt(String.join("", r));
    }
    public static Value G1C(Value s) { return each(s, x -> Curve.c1(Curve.g1(x))); }
    public static Value G1U(Value s) { return each(s, x -> Curve.u1(Curve.g1(x))); }
    public static Value G2C(Value s) { return each(s, x -> Curve.c2(Curve.g2(x))); }
    public static Value G2U(Value s) { return each(s, x -> Curve.u2(Curve.g2(x))); }
    static final ConcurrentHashMap<String, String> SPX = new ConcurrentHashMap<>();
    static final ConcurrentHashMap<String, Curve.F2[]> SPS = new ConcurrentHashMap<>();
    /** compressed x*HashToG2(S || SX || challenge, [dst]) with S = s*g1, SX = sx*g1 */
    public static Value SPC(Value s, Value sx, Value challenge, Value dst, Value x) {
        String key = str(s) + "," + str(sx) + "," + str(challenge) + "," + in(dst);
        String done = SPX.get(key + "," + str(x));
        if (done != null) return txt(done);
        Curve.F2[] sp = SPS.computeIfAbsent(key, k -> Curve.hashG2(
            Curve.cat(Curve.u1(Curve.g1(num(s))), Curve.u1(Curve.g1(num(sx))), Curve.unhex(str(challenge))), new byte[]{(byte) in(dst)}));
        done = Curve.hex(Curve.c2(Curve.mul2(sp, num(x))));
        SPX.put(key + "," + str(x), done);
        return txt(done);
    }
    public static Value OffCurve1(Value salt) { return txt(Curve.hex(Curve.offCurve1(in(salt)))); }
    public static Value OffCurve2(Value salt) { return txt(Curve.hex(Curve.offCurve2(in(salt)))); }
    public static Value OffGroup2(Value salt) { return txt(Curve.hex(Curve.offGroup2(in(salt)))); }
    /** decimal coordinates <<x, y>> of s*g1 and <<x0, x1, y0, y1>> of s*g2 (x0 + x1 u) */
    public static Value G1Dec(Value s) {
        BigInteger[] p = Curve.g1(num(s));
        return p == null ? new TupleValue(new Value[]{txt("0"), txt("0")}) : new TupleValue(new Value[]{txt(p[0].toString()), txt(p[1].toString())});
    }
    public static Value G2Dec(Value s) {
        Curve.F2[] p = Curve.g2(num(s));
        return p == null ? new TupleValue(new Value[]{txt("0"), txt("0"), txt("0"), txt("0")})
            : new TupleValue(new Value[]{txt(p[0].a.toString()), txt(p[0].b.toString()), txt(p[1].a.toString()), txt(p[1].b.toString())});
    }
    /** the inverse discrete Fourier transform over gnark's domain: (1/n) sum v[j] w^(-ij) */
    public static Value BIDFT(Value v) {
        Value[] x = seq(v);
        BigInteger[] a = new BigInteger[x.length];
        for (int i = 0; i < a.length; i++) a[i] = num(x[i]);
        int n = a.length;
        BigInteger w = n == 1 ? BigInteger.ONE : Curve.ROOT28.modPow(BigInteger.valueOf((1L << 28) / n), Curve.R).modInverse(Curve.R);
        a = dft(a, w);
        BigInteger ni = BigInteger.valueOf(n).modInverse(Curve.R);
        Value[] r = new Value[n];
        for (int i = 0; i < n; i++) r[i] = val(a[i].multiply(ni));
        return new TupleValue(r);
    }
    static BigInteger[] dft(BigInteger[] a, BigInteger w) {
        int n = a.length;
        if (n == 1) return a;
        BigInteger[] e = new BigInteger[n / 2], o = new BigInteger[n / 2], r = new BigInteger[n];
        for (int i = 0; i < n / 2; i++) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; }
        BigInteger w2 = w.multiply(w).mod(Curve.R), t = BigInteger.ONE;
        e = dft(e, w2);
        o = dft(o, w2);
        for (int i = 0; i < n / 2; i++) {
            BigInteger x = t.multiply(o[i]);
            r[i] = e[i].add(x).mod(Curve.R);
            r[i + n / 2] = e[i].subtract(x).mod(Curve.R);
            t = t.multiply(w).mod(Curve.R);
        }
        return r;
    }
    /** uncompressed encodings of a compressed sequence of points */
    public static Value G1Raw(Value h) { return raw(h, 32, b -> Curve.u1(Curve.decode1(b))); }
    public static Value G2Raw(Value h) { return raw(h, 64, b -> Curve.u2(Curve.decode2(b))); }
    interface Dec { byte[] of(byte[] b); }
    static Value raw(Value h, int size, Dec d) {
        byte[] b = Curve.unhex(str(h));
        if (b.length % size != 0) return txt("undecodable");
        String[] r = new String[b.length / size];
        try {
            IntStream.range(0, r.length).parallel().forEach(i -> r[i] = Curve.hex(d.of(java.util.Arrays.copyOfRange(b, i * size, (i + 1) * size))));
        } catch (RuntimeException e) { return txt("undecodable"); }
        return txt(String.join("", r));
    }
    /** raw x*HashToG2(seed, "random on g2"), the generator of a Pedersen key */
    static final ConcurrentHashMap<String, Curve.F2[]> PED = new ConcurrentHashMap<>();
    public static Value PedG2(Value seed, Value x) {
        Curve.F2[] g = PED.computeIfAbsent(str(seed), k -> Curve.hashG2(Curve.unhex(k), "random on g2".getBytes(StandardCharsets.UTF_8)));
        return txt(Curve.hex(Curve.u2(Curve.mul2(g, num(x)))));
    }
    /** what a random generator's reads (hex strings) can be taken for: pairs <<scalar, number of the draw>> */
    public static Value Candidates(Value reads) {
        java.util.LinkedHashSet<String> seen = new java.util.LinkedHashSet<>();
        java.util.ArrayList<Value> out = new java.util.ArrayList<>();
        BigInteger rinv = BigInteger.ONE.shiftLeft(256).modInverse(Curve.R), mask = BigInteger.ONE.shiftLeft(254).subtract(BigInteger.ONE);
        int id = 0;
        for (Value v : seq(reads)) {
            byte[] b = Curve.unhex(str(v));
            for (int o = 0; o + 32 <= b.length; o += 32) {
                id++;
                BigInteger be = new BigInteger(1, java.util.Arrays.copyOfRange(b, o, o + 32)), le = rev(b, o, 32);
                BigInteger[] c = {le.and(mask).multiply(rinv), le.and(mask), be.and(mask), be.and(mask).add(BigInteger.ONE), be, le,
                    be.and(mask).multiply(rinv), be.multiply(rinv), le.multiply(rinv)};
                for (BigInteger x : c) add(out, seen, x, id);
            }
            if (b.length > 32) {
                add(out, seen, new BigInteger(1, b), ++id);
                add(out, seen, rev(b, 0, b.length), id);
            }
        }
        return new TupleValue(out.toArray(new Value[0]));
    }
    static BigInteger rev(byte[] b, int o, int n) {
        byte[] r = new byte[n];
        for (int i = 0; i < n; i++) r[i] = b[o + n - 1 - i];
        return new BigInteger(1, r);
    }
    static void add(java.util.ArrayList<Value> out, java.util.Set<String> seen, BigInteger x, int id) {
        x = x.mod(Curve.R);
        if (x.signum() != 0 && seen.add(x + "/" + id)) out.add(new TupleValue(new Value[]{val(x), IntValue.gen(id)}));
    }

    // ---- gob: the values of the first struct in a stream, by the kinds of its fields
    // (i: int, u: uint, s: sequence of ints); fields absent are "0" or "[]"
    static final class Gob {
        byte[] b; int p;
        Gob(byte[] b) { this.b = b; }
        long uint() {
            int x = b[p++] & 0xff;
            if (x < 128) return x;
            long v = 0;
            for (int n = 256 - x; n > 0; n--) v = v << 8 | (b[p++] & 0xff);
            return v;
        }
        long sint() { long u = uint(); return (u & 1) == 1 ? ~(u >>> 1) : u >>> 1; }
        String[] fields(String kinds) {
            while (true) {
                int len = (int) uint(), end = p + len;
                if (sint() < 0) { p = end; continue; }   // a type
                String[] r = new String[kinds.length()];
                for (int i = 0; i < r.length; i++) r[i] = kinds.charAt(i) == 's' ? "[]" : "0";
                int f = -1;
                for (long d = uint(); d != 0; d = uint()) {
                    f += d;
                    char k = kinds.charAt(f);
                    if (k == 'i') r[f] = Long.toString(sint());
                    else if (k == 'u') r[f] = Long.toString(uint());
                    else {
                        StringBuilder s = new StringBuilder("[");
                        for (long n = uint(), j = 0; j < n; j++) s.append(j > 0 ? "," : "").append(sint());
                        r[f] = s.append("]").toString();
                    }
                }
                if (p != end) throw new IllegalArgumentException("gob");
                return r;
            }
        }
    }
    public static Value GobDecoded(Value h, Value kinds) {
        try {
            String[] f = new Gob(Curve.unhex(str(h))).fields(str(kinds));
            Value[] r = new Value[f.length];
            for (int i = 0; i < r.length; i++) r[i] = txt(f[i]);
            return new TupleValue(r);
        } catch (RuntimeException e) { return new TupleValue(new Value[]{txt("undecodable")}); }
    }
    /** bytes up to the end of the first struct, -1 if there is none */
    public static Value GobSize(Value h, Value kinds) {
        try {
            Gob g = new Gob(Curve.unhex(str(h)));
            g.fields(str(kinds));
            return IntValue.gen(g.p);
        } catch (RuntimeException e) { return IntValue.gen(-1); }
    }

    /** big-endian integer of size bytes at an offset, -1 if it's too large or not there */
    public static Value IntAt(Value h, Value off, Value size) {
        String t = str(h);
        int o = 2 * in(off), e = o + 2 * in(size);
        if (o < 0 || e > t.length()) return IntValue.gen(-1);
        BigInteger x = new BigInteger(t.substring(o, e), 16);
        return IntValue.gen(x.bitLength() > 24 ? -1 : x.intValue());
    }
    /** decimal numbers of the 32-byte words */
    // without the two flag bits
    public static Value Decimals(Value h) {
        String t = str(h);
        Value[] r = new Value[t.length() / 64];
        for (int i = 0; i < r.length; i++) r[i] = txt(new BigInteger(t.substring(64 * i, 64 * i + 64), 16).mod(BigInteger.ONE.shiftLeft(254)).toString());
        return new TupleValue(r);
    }
    /** appends a line to a file, once per distinct (file, key) */
    static final ConcurrentHashMap<String, Boolean> DONE = new ConcurrentHashMap<>();
    static final HashMap<String, FileOutputStream> OUT = new HashMap<>();
    public static Value EmitLine(Value file, Value key, Value line) {
        if (DONE.putIfAbsent(str(file) + "|" + str(key), true) == null) {
            synchronized (OUT) {
                try {
                    FileOutputStream f = OUT.get(str(file));
                    if (f == null) { f = new FileOutputStream(str(file)); OUT.put(str(file), f); }
                    f.write((str(line) + "\n").getBytes(StandardCharsets.UTF_8));
                } catch (Exception e) { throw new RuntimeException(e); }
            }
        }
        return BoolValue.ValTrue;
    }
    public static Value EnvStr(Value name, Value dflt) {
        String s = System.getenv(str(name));
        return s == null ? dflt : txt(s);
    }
}
