import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/**
 * alt_bn128 for module Bn, written from the definitions: G1 is y^2 = x^3 + 3 over GF(p), G2 the order-r
 * subgroup of y^2 = x^3 + 3/xi over GF(p^2) = GF(p)[i]/(i^2+1), xi = 9 + i, and GT the order-r subgroup of
 * GF(p^12) = GF(p^2)[w]/(w^6 - xi).  Elements are given by their exponents and written as the byte
 * encodings of the implementation under test, in hexadecimal.
 */
public final class Bn {
    static final BigInteger U = new BigInteger("4965661367192848881");
    static BigInteger poly(int a, int b, int c, int d, int e) {
        BigInteger r = BigInteger.ZERO;
        for (int k : new int[]{a, b, c, d, e}) r = r.multiply(U).add(BigInteger.valueOf(k));
        return r;
    }
    static final BigInteger P = poly(36, 36, 24, 6, 1), R = poly(36, 36, 18, 6, 1);
    static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE;

    // ---- GF(p^2): {re, im}
    static BigInteger[] f2(BigInteger re, BigInteger im) { return new BigInteger[]{re.mod(P), im.mod(P)}; }
    static final BigInteger[] F2ZERO = {ZERO, ZERO}, F2ONE = {ONE, ZERO}, XI = {BigInteger.valueOf(9), ONE};
    static BigInteger[] add2(BigInteger[] a, BigInteger[] b) { return f2(a[0].add(b[0]), a[1].add(b[1])); }
    static BigInteger[] sub2(BigInteger[] a, BigInteger[] b) { return f2(a[0].subtract(b[0]), a[1].subtract(b[1])); }
    static BigInteger[] mul2(BigInteger[] a, BigInteger[] b) {
        return f2(a[0].multiply(b[0]).subtract(a[1].multiply(b[1])), a[0].multiply(b[1]).add(a[1].multiply(b[0])));
    }
    static BigInteger[] scl2(BigInteger[] a, BigInteger k) { return f2(a[0].multiply(k), a[1].multiply(k)); }
    static BigInteger[] conj2(BigInteger[] a) { return f2(a[0], a[1].negate()); }
    static BigInteger[] inv2(BigInteger[] a) {
        BigInteger n = a[0].multiply(a[0]).add(a[1].multiply(a[1])).modInverse(P);
        return f2(a[0].multiply(n), a[1].negate().multiply(n));
    }
    static boolean zero2(BigInteger[] a) { return a[0].signum() == 0 && a[1].signum() == 0; }
    static boolean eq2(BigInteger[] a, BigInteger[] b) { return a[0].equals(b[0]) && a[1].equals(b[1]); }
    static BigInteger[] pow2(BigInteger[] a, BigInteger e) {
        BigInteger[] r = F2ONE;
        for (int i = e.bitLength() - 1; i >= 0; i--) { r = mul2(r, r); if (e.testBit(i)) r = mul2(r, a); }
        return r;
    }

    // ---- affine points over GF(p^2); null is infinity.  G1 is embedded with zero imaginary parts.
    static final BigInteger[] B1 = {BigInteger.valueOf(3), ZERO};
    static final BigInteger[] B2 = mul2(B1, inv2(XI));
    static final BigInteger[][] G1 = {F2ONE, f2(BigInteger.valueOf(-2), ZERO)};
    static final BigInteger[][] G2 = {
        f2(new BigInteger("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
           new BigInteger("11559732032986387107991004021392285783925812861821192530917403151452391805634")),
        f2(new BigInteger("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
           new BigInteger("4082367875863433681332203403145435568316851327593401208105741076214120093531"))};

    static BigInteger[] slope(BigInteger[][] a, BigInteger[][] b) {
        if (eq2(a[0], b[0]))
            return mul2(scl2(mul2(a[0], a[0]), BigInteger.valueOf(3)), inv2(scl2(a[1], BigInteger.TWO)));
        return mul2(sub2(b[1], a[1]), inv2(sub2(b[0], a[0])));
    }
    static BigInteger[][] addA(BigInteger[][] a, BigInteger[][] b) {
        if (a == null) return b;
        if (b == null) return a;
        if (eq2(a[0], b[0]) && (!eq2(a[1], b[1]) || zero2(a[1]))) return null;
        BigInteger[] l = slope(a, b);
        BigInteger[] x = sub2(sub2(mul2(l, l), a[0]), b[0]);
        return new BigInteger[][]{x, sub2(mul2(l, sub2(a[0], x)), a[1])};
    }
    static boolean onCurve(BigInteger[][] a, BigInteger[] b) {
        return zero2(sub2(mul2(a[1], a[1]), add2(mul2(mul2(a[0], a[0]), a[0]), b)));
    }
    static BigInteger[][] mulA(BigInteger[][] a, BigInteger k) {
        BigInteger[][] r = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) { r = addA(r, r); if (k.testBit(i)) r = addA(r, a); }
        return r;
    }

    // fixed-base tables: tab[w][d] = d * 16^w * base
    static BigInteger[][][][] table(BigInteger[][] g) {
        BigInteger[][][][] t = new BigInteger[64][16][][];
        for (int w = 0; w < 64; w++) {
            for (int d = 1; d < 16; d++) t[w][d] = addA(t[w][d - 1], g);
            g = addA(t[w][15], g);
        }
        return t;
    }
    static BigInteger[][] fixed(BigInteger[][][][] t, BigInteger k) {
        BigInteger[][] r = null;
        for (int w = 0; w < 64; w++) {
            int d = k.shiftRight(4 * w).intValue() & 15;
            if (d != 0) r = addA(r, t[w][d]);
        }
        return r;
    }
    static BigInteger[][][][] T1, T2;
    static BigInteger[][][] TE;
    static synchronized void init1() { if (T1 == null) T1 = table(G1); }
    static synchronized void init2() { if (T2 == null) T2 = table(G2); }

    // ---- GF(p^12): 12 coefficients, index 2j (re) and 2j+1 (im) of w^j
    static BigInteger[] one12() {
        BigInteger[] r = new BigInteger[12];
        java.util.Arrays.fill(r, ZERO);
        r[0] = ONE;
        return r;
    }
    static BigInteger[] mul12(BigInteger[] a, BigInteger[] b) {
        BigInteger[] re = new BigInteger[11], im = new BigInteger[11];
        java.util.Arrays.fill(re, ZERO);
        java.util.Arrays.fill(im, ZERO);
        for (int i = 0; i < 6; i++) {
            if (a[2 * i].signum() == 0 && a[2 * i + 1].signum() == 0) continue;
            for (int j = 0; j < 6; j++) {
                if (b[2 * j].signum() == 0 && b[2 * j + 1].signum() == 0) continue;
                BigInteger v0 = a[2 * i].multiply(b[2 * j]), v1 = a[2 * i + 1].multiply(b[2 * j + 1]);
                BigInteger v2 = a[2 * i].add(a[2 * i + 1]).multiply(b[2 * j].add(b[2 * j + 1]));
                re[i + j] = re[i + j].add(v0).subtract(v1);
                im[i + j] = im[i + j].add(v2).subtract(v0).subtract(v1);
            }
        }
        BigInteger[] r = new BigInteger[12];
        BigInteger nine = BigInteger.valueOf(9);
        for (int j = 0; j < 6; j++) {
            BigInteger x = re[j], y = im[j];
            if (j + 6 < 11) {   // times xi = 9 + i
                x = x.add(re[j + 6].multiply(nine)).subtract(im[j + 6]);
                y = y.add(im[j + 6].multiply(nine)).add(re[j + 6]);
            }
            r[2 * j] = x.mod(P);
            r[2 * j + 1] = y.mod(P);
        }
        return r;
    }
    static BigInteger[] pow12(BigInteger[] a, BigInteger e) {
        BigInteger[] r = one12();
        for (int i = e.bitLength() - 1; i >= 0; i--) { r = mul12(r, r); if (e.testBit(i)) r = mul12(r, a); }
        return r;
    }

    // ---- the optimal ate pairing e(a, b) = f^((p^12 - 1)/r)
    static BigInteger[] line(BigInteger[][] t, BigInteger[] l, BigInteger[][] p) {
        // y_P - l x_P w + (l x_T - y_T) w^3
        BigInteger[] r = one12();
        r[0] = p[1][0];
        BigInteger[] m = scl2(l, p[0][0].negate());
        r[2] = m[0]; r[3] = m[1];
        BigInteger[] n = sub2(mul2(l, t[0]), t[1]);
        r[6] = n[0]; r[7] = n[1];
        return r;
    }
    static BigInteger[] pair(BigInteger[][] p, BigInteger[][] q) {
        if (p == null || q == null) return one12();
        BigInteger s = U.multiply(BigInteger.valueOf(6)).add(BigInteger.TWO);
        BigInteger[] f = one12();
        BigInteger[][] t = q;
        for (int i = s.bitLength() - 2; i >= 0; i--) {
            f = mul12(mul12(f, f), line(t, slope(t, t), p));
            t = addA(t, t);
            if (s.testBit(i)) { f = mul12(f, line(t, slope(t, q), p)); t = addA(t, q); }
        }
        BigInteger p1 = P.subtract(ONE), pp1 = P.multiply(P).subtract(ONE), three = BigInteger.valueOf(3);
        BigInteger[][] q1 = {mul2(conj2(q[0]), pow2(XI, p1.divide(three))), mul2(conj2(q[1]), pow2(XI, p1.divide(BigInteger.TWO)))};
        BigInteger[][] q2 = {mul2(q[0], pow2(XI, pp1.divide(three))), q[1]};
        f = mul12(f, line(t, slope(t, q1), p)); t = addA(t, q1);
        f = mul12(f, line(t, slope(t, q2), p));
        return pow12(f, P.pow(12).subtract(ONE).divide(R));
    }
    static synchronized void initE() {
        if (TE != null) return;
        BigInteger[] g = pair(G1, G2);
        BigInteger[][][] t = new BigInteger[64][16][];
        for (int w = 0; w < 64; w++) {
            t[w][0] = one12();
            for (int d = 1; d < 16; d++) t[w][d] = mul12(t[w][d - 1], g);
            g = mul12(t[w][15], g);
        }
        TE = t;
    }

    // ---- encodings
    static String hex(BigInteger x) {
        String s = x.toString(16);
        return "0".repeat(64 - s.length()) + s;
    }
    static final int[] ORDER12 = {5, 3, 1, 4, 2, 0};
    static String enc1(BigInteger[][] a) { return a == null ? hex(ZERO) + hex(ONE) : hex(a[0][0]) + hex(a[1][0]); }
    static String enc2(BigInteger[][] a) {
        return a == null ? hex(ZERO).repeat(4) : hex(a[0][1]) + hex(a[0][0]) + hex(a[1][1]) + hex(a[1][0]);
    }
    static String encT(BigInteger[] a) {
        StringBuilder s = new StringBuilder();
        for (int j : ORDER12) s.append(hex(a[2 * j + 1])).append(hex(a[2 * j]));
        return s.toString();
    }
    static String str2(BigInteger[] a) { return "(" + a[1] + "," + a[0] + ")"; }
    static String strT(BigInteger[] a) {
        StringBuilder s = new StringBuilder("bn256.GT((");
        for (int k = 0; k < 6; k++) {
            int j = ORDER12[k];
            s.append("(" + a[2 * j + 1] + "," + a[2 * j] + ")");
            s.append(k == 2 ? "),(" : k == 5 ? "))" : ",");
        }
        return s.toString();
    }
    static BigInteger[][] g1(BigInteger k) { init1(); return fixed(T1, k.mod(R)); }
    static BigInteger[][] g2(BigInteger k) { init2(); return fixed(T2, k.mod(R)); }
    static BigInteger[] gt(BigInteger k) {
        initE();
        k = k.mod(R);
        BigInteger[] r = null;
        for (int w = 0; w < 64; w++) {
            int d = k.shiftRight(4 * w).intValue() & 15;
            if (d != 0) r = r == null ? TE[w][d] : mul12(r, TE[w][d]);
        }
        return r == null ? one12() : r;
    }
    static final ConcurrentHashMap<String, Value> cache = new ConcurrentHashMap<>();
    static Value memo(String kind, Value k, java.util.function.Function<BigInteger, String> f) {
        BigInteger e = Num.big(k).mod(R);
        return cache.computeIfAbsent(kind + e, x -> Num.str(f.apply(e)));
    }

    public static Value ROrd() { return Num.str(R); }
    public static Value BnP() { return Num.str(P); }
    public static Value G1Enc(Value k) { return memo("1", k, e -> enc1(g1(e))); }
    public static Value G2Enc(Value k) { return memo("2", k, e -> enc2(g2(e))); }
    public static Value GTEnc(Value k) { return memo("t", k, e -> encT(gt(e))); }
    public static Value G2Text(Value k) {
        return memo("s", k, e -> {
            BigInteger[][] a = g2(e);
            return a == null ? "bn256.G2((0,0), (0,1), (0,0))" : "bn256.G2(" + str2(a[0]) + ", " + str2(a[1]) + ", (0,1))";
        });
    }
    public static Value GTText(Value k) { return memo("u", k, e -> strT(gt(e))); }

    // ---- validity of byte strings
    static BigInteger[] words(String h, int n) {
        if (h.length() != 64 * n) return null;
        BigInteger[] r = new BigInteger[n];
        for (int i = 0; i < n; i++) {
            r[i] = new BigInteger(h.substring(64 * i, 64 * i + 64), 16);
            if (r[i].compareTo(P) >= 0) return null;
        }
        return r;
    }
    public static Value G1Valid(Value h) {
        BigInteger[] w = words(Num.text(h), 2);
        if (w == null) return Num.bool(false);
        if (w[0].signum() == 0 && w[1].equals(ONE)) return Num.bool(true);
        return Num.bool(onCurve(new BigInteger[][]{f2(w[0], ZERO), f2(w[1], ZERO)}, B1));
    }
    public static Value G2Valid(Value h) {
        BigInteger[] w = words(Num.text(h), 4);
        if (w == null) return Num.bool(false);
        BigInteger[][] a = {f2(w[1], w[0]), f2(w[3], w[2])};
        if (zero2(a[0]) && zero2(a[1])) return Num.bool(true);
        return Num.bool(onCurve(a, B2) && mulA(a, R) == null);
    }
    public static Value GTValid(Value h) {
        BigInteger[] w = words(Num.text(h), 12);
        if (w == null) return Num.bool(false);
        BigInteger[] a = new BigInteger[12];
        for (int k = 0; k < 6; k++) { a[2 * ORDER12[k] + 1] = w[2 * k]; a[2 * ORDER12[k]] = w[2 * k + 1]; }
        return Num.bool(encT(pow12(a, R)).equals(encT(one12())));
    }
    /** a point of the curve (twist) with the given x, or "none": for byte strings outside the group */
    static BigInteger sqrt(BigInteger a) {
        BigInteger r = a.modPow(P.add(ONE).shiftRight(2), P);
        return r.multiply(r).mod(P).equals(a.mod(P)) ? r : null;
    }
    static BigInteger[] sqrt2(BigInteger[] a) {        // complex method, p = 3 mod 4
        if (a[1].signum() == 0) {
            BigInteger s = sqrt(a[0]);
            if (s != null) return f2(s, ZERO);
            s = sqrt(a[0].negate().mod(P));
            return f2(ZERO, s);
        }
        BigInteger n = sqrt(a[0].multiply(a[0]).add(a[1].multiply(a[1])).mod(P));
        if (n == null) return null;
        BigInteger half = BigInteger.TWO.modInverse(P);
        for (BigInteger m : new BigInteger[]{n, n.negate()}) {
            BigInteger s = sqrt(a[0].add(m).multiply(half).mod(P));
            if (s == null || s.signum() == 0) continue;
            BigInteger[] r = f2(s, a[1].multiply(half).multiply(s.modInverse(P)));
            if (eq2(mul2(r, r), a)) return r;
        }
        return null;
    }
    public static Value G1Lift(Value x) {
        BigInteger a = Num.big(x).mod(P);
        BigInteger y = sqrt(a.multiply(a).multiply(a).add(BigInteger.valueOf(3)).mod(P));
        return Num.str(y == null ? "none" : hex(a) + hex(y));
    }
    public static Value TwistLift(Value re, Value im) {
        BigInteger[] x = f2(Num.big(re), Num.big(im));
        BigInteger[] y = sqrt2(add2(mul2(mul2(x, x), x), B2));
        return Num.str(y == null ? "none" : hex(x[1]) + hex(x[0]) + hex(y[1]) + hex(y[0]));
    }
    public static Value HexWord(Value x) { return Num.str(hex(Num.big(x))); }
    public static Value HexCat(Value s) {
        StringBuilder b = new StringBuilder();
        for (Value v : Num.seq(s)) b.append(Num.text(v));
        return Num.str(b.toString());
    }
    /** the i-th 32-byte word of a hexadecimal string, as a number, and the string with that word replaced */
    public static Value HexGet(Value h, Value i) {
        int k = Num.sml(i);
        return Num.str(new BigInteger(Num.text(h).substring(64 * k, 64 * k + 64), 16));
    }
    public static Value HexSet(Value h, Value i, Value x) {
        int k = Num.sml(i);
        String s = Num.text(h);
        return Num.str(s.substring(0, 64 * k) + hex(Num.big(x)) + s.substring(64 * k + 64));
    }
    public static Value HexCut(Value h, Value n) {          // the first n bytes, or padded with zero bytes
        int k = 2 * Num.sml(n);
        String s = Num.text(h);
        return Num.str(k <= s.length() ? s.substring(0, k) : s + "0".repeat(k - s.length()));
    }
    /** product in GF(p^12) of an encoded element and a constant, for elements outside the group */
    public static Value GTScale(Value h, Value k) {
        BigInteger[] w = words(Num.text(h), 12);
        StringBuilder s = new StringBuilder();
        for (BigInteger x : w) s.append(hex(x.multiply(Num.big(k)).mod(P)));
        return Num.str(s.toString());
    }
    /** exponents from s on such that every word of the encoding starts with a zero byte in n of them (two zero bytes once for G1) */
    public static Value Shorts(Value t, Value s, Value n) {
        String kind = Num.text(t);
        int k = Num.sml(n), words = kind.equals("G1") ? 2 : kind.equals("G2") ? 4 : 12;
        int[] seen = new int[words], seen2 = new int[words];
        java.util.List<Value> r = new java.util.ArrayList<>();
        BigInteger e = Num.big(s).mod(R);
        BigInteger[][] a = kind.equals("G1") ? g1(e) : kind.equals("G2") ? g2(e) : null;
        BigInteger[] x = kind.equals("GT") ? gt(e) : null, base = kind.equals("GT") ? gt(ONE) : null;
        for (int i = 0; i < 200000; i++) {
            String h = kind.equals("G1") ? enc1(a) : kind.equals("G2") ? enc2(a) : encT(x);
            boolean take = false, done = true;
            for (int w = 0; w < words; w++) {
                if (h.startsWith("00", 64 * w) && seen[w] < k) { seen[w]++; take = true; }
                if (words == 2 && h.startsWith("0000", 64 * w) && seen2[w] < 1) { seen2[w]++; take = true; }
                if (seen[w] < k || (words == 2 && seen2[w] < 1)) done = false;
            }
            if (take) r.add(Num.str(e));
            if (done) break;
            e = e.add(ONE);
            if (kind.equals("GT")) x = mul12(x, base); else a = addA(a, kind.equals("G1") ? G1 : G2);
        }
        return new TupleValue(r.toArray(new Value[0]));
    }
    /** one-to-one shortening of the long encodings, so that traces stay readable */
    public static Value Short(Value h) {
        String s = Num.text(h);
        if (s.length() <= 64) return Num.str(s);
        byte[] d = Num.sha(s.getBytes());
        StringBuilder b = new StringBuilder();
        for (int i = 0; i < 20; i++) b.append(String.format("%02x", d[i]));
        return Num.str(b.toString());
    }
}
