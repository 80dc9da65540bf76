import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/** Elements of the bilinear groups by their encodings, for module Bil. */
public final class Bil {
    static final BigInteger P = Bn.P, R = Bn.R;
    static BigInteger w(String h, int i) { return new BigInteger(h.substring(64 * i, 64 * i + 64), 16); }
    static BigInteger[][] g1(String h) {
        BigInteger x = w(h, 0), y = w(h, 1);
        return x.signum() == 0 ? null : new BigInteger[][]{Bn.f2(x, BigInteger.ZERO), Bn.f2(y, BigInteger.ZERO)};
    }
    static BigInteger[][] g2(String h) {
        BigInteger[] x = Bn.f2(w(h, 1), w(h, 0)), y = Bn.f2(w(h, 3), w(h, 2));
        return Bn.zero2(x) && Bn.zero2(y) ? null : new BigInteger[][]{x, y};
    }
    static BigInteger[] gt(String h) {
        BigInteger[] a = new BigInteger[12];
        for (int k = 0; k < 6; k++) { a[2 * Bn.ORDER12[k] + 1] = w(h, 2 * k); a[2 * Bn.ORDER12[k]] = w(h, 2 * k + 1); }
        return a;
    }
    static BigInteger[][] neg(BigInteger[][] a) { return a == null ? null : new BigInteger[][]{a[0], Bn.f2(a[1][0].negate(), a[1][1].negate())}; }

    // ---- Jacobian arithmetic over GF(p^2) (a = 0): fast scalar multiplication
    static BigInteger[][] dblJ(BigInteger[][] a) {
        if (a == null || Bn.zero2(a[1])) return null;
        BigInteger[] A = Bn.mul2(a[0], a[0]), B = Bn.mul2(a[1], a[1]), C = Bn.mul2(B, B);
        BigInteger[] t = Bn.add2(a[0], B);
        BigInteger[] D = Bn.scl2(Bn.sub2(Bn.sub2(Bn.mul2(t, t), A), C), BigInteger.TWO);
        BigInteger[] E = Bn.scl2(A, BigInteger.valueOf(3)), F = Bn.mul2(E, E);
        BigInteger[] x = Bn.sub2(F, Bn.scl2(D, BigInteger.TWO));
        BigInteger[] y = Bn.sub2(Bn.mul2(E, Bn.sub2(D, x)), Bn.scl2(C, BigInteger.valueOf(8)));
        return new BigInteger[][]{x, y, Bn.scl2(Bn.mul2(a[1], a[2]), BigInteger.TWO)};
    }
    static BigInteger[][] addJ(BigInteger[][] a, BigInteger[][] b) {      // b affine
        if (b == null) return a;
        if (a == null) return new BigInteger[][]{b[0], b[1], Bn.F2ONE};
        BigInteger[] zz = Bn.mul2(a[2], a[2]), u = Bn.mul2(b[0], zz), s = Bn.mul2(Bn.mul2(b[1], a[2]), zz);
        BigInteger[] h = Bn.sub2(u, a[0]), r = Bn.sub2(s, a[1]);
        if (Bn.zero2(h)) return Bn.zero2(r) ? dblJ(a) : null;
        BigInteger[] hh = Bn.mul2(h, h), hhh = Bn.mul2(hh, h), v = Bn.mul2(a[0], hh);
        BigInteger[] x = Bn.sub2(Bn.sub2(Bn.mul2(r, r), hhh), Bn.scl2(v, BigInteger.TWO));
        BigInteger[] y = Bn.sub2(Bn.mul2(r, Bn.sub2(v, x)), Bn.mul2(a[1], hhh));
        return new BigInteger[][]{x, y, Bn.mul2(a[2], h)};
    }
    static BigInteger[][] affine(BigInteger[][] a) {
        if (a == null) return null;
        BigInteger[] i = Bn.inv2(a[2]), ii = Bn.mul2(i, i);
        return new BigInteger[][]{Bn.mul2(a[0], ii), Bn.mul2(a[1], Bn.mul2(ii, i))};
    }
    static BigInteger[][] multi(BigInteger[] k, BigInteger[][][] p) {
        BigInteger[][] r = null;
        int top = 0;
        for (BigInteger x : k) top = Math.max(top, x.bitLength());
        for (int i = top - 1; i >= 0; i--) {
            r = dblJ(r);
            for (int j = 0; j < k.length; j++) if (k[j].testBit(i)) r = addJ(r, p[j]);
        }
        return affine(r);
    }
    static BigInteger[] scalars(Value ks) {
        Value[] v = Num.seq(ks);
        BigInteger[] r = new BigInteger[v.length];
        for (int i = 0; i < r.length; i++) r[i] = Num.big(v[i]).mod(R);
        return r;
    }

    // ---- the pairing, with the final exponentiation in two steps
    static BigInteger[] frob(BigInteger[] a) {                             // a^p
        BigInteger[] r = new BigInteger[12];
        for (int j = 0; j < 6; j++) {
            BigInteger[] c = Bn.mul2(Bn.conj2(new BigInteger[]{a[2 * j], a[2 * j + 1]}), XIP[j]);
            r[2 * j] = c[0]; r[2 * j + 1] = c[1];
        }
        return r;
    }
    static final BigInteger[][] XIP = new BigInteger[6][];
    static {
        BigInteger e = P.subtract(BigInteger.ONE).divide(BigInteger.valueOf(6));
        for (int j = 0; j < 6; j++) XIP[j] = Bn.pow2(Bn.XI, e.multiply(BigInteger.valueOf(j)));
    }
    static BigInteger[] inv12(BigInteger[] a) {
        BigInteger[] f = a, q = Bn.one12();
        for (int i = 1; i < 12; i++) { f = frob(f); q = Bn.mul12(q, f); }
        BigInteger n = Bn.mul12(a, q)[0].modInverse(P);
        BigInteger[] r = new BigInteger[12];
        for (int i = 0; i < 12; i++) r[i] = q[i].multiply(n).mod(P);
        return r;
    }
    static final BigInteger HARD = P.pow(4).subtract(P.pow(2)).add(BigInteger.ONE).divide(R);
    static BigInteger[] finalExp(BigInteger[] f) {
        BigInteger[] c = f.clone();
        for (int j = 1; j < 6; j += 2) { c[2 * j] = c[2 * j].negate().mod(P); c[2 * j + 1] = c[2 * j + 1].negate().mod(P); }
        BigInteger[] g = Bn.mul12(c, inv12(f));
        g = Bn.mul12(frob(frob(g)), g);
        return Bn.pow12(g, HARD);
    }
    static BigInteger[] miller(BigInteger[][] p, BigInteger[][] q) {
        BigInteger s = Bn.U.multiply(BigInteger.valueOf(6)).add(BigInteger.TWO);
        BigInteger[] f = Bn.one12();
        BigInteger[][] t = q;
        for (int i = s.bitLength() - 2; i >= 0; i--) {
            BigInteger[] l = Bn.slope(t, t);
            f = Bn.mul12(Bn.mul12(f, f), Bn.line(t, l, p));
            t = Bn.addA(t, t);
            if (s.testBit(i)) { f = Bn.mul12(f, Bn.line(t, Bn.slope(t, q), p)); t = Bn.addA(t, q); }
        }
        BigInteger p1 = P.subtract(BigInteger.ONE), pp1 = P.multiply(P).subtract(BigInteger.ONE), three = BigInteger.valueOf(3);
        BigInteger[][] q1 = {Bn.mul2(Bn.conj2(q[0]), Bn.pow2(Bn.XI, p1.divide(three))), Bn.mul2(Bn.conj2(q[1]), Bn.pow2(Bn.XI, p1.divide(BigInteger.TWO)))};
        BigInteger[][] q2 = {Bn.mul2(q[0], Bn.pow2(Bn.XI, pp1.divide(three))), q[1]};
        f = Bn.mul12(f, Bn.line(t, Bn.slope(t, q1), p)); t = Bn.addA(t, q1);
        return Bn.mul12(f, Bn.line(t, Bn.slope(t, q2), p));
    }
    static BigInteger[] pair(BigInteger[][] p, BigInteger[][] q) {
        return p == null || q == null ? Bn.one12() : finalExp(miller(p, q));
    }

    static final ConcurrentHashMap<String, String> cache = new ConcurrentHashMap<>();
    static Value memo(String key, java.util.function.Supplier<String> f) {
        String r = cache.get(key);
        if (r == null) {
            r = f.get();
            if (cache.size() < 400000) cache.put(key, r);
        }
        return Num.str(r);
    }
    static String key(String op, Value a, Value b) {
        StringBuilder s = new StringBuilder(op);
        for (Value v : Num.seq(a)) s.append('/').append(Num.text(v));
        for (Value v : Num.seq(b)) s.append('/').append(Num.text(v));
        byte[] d = Num.sha(s.toString().getBytes());
        return new BigInteger(1, d).toString(36);
    }

    static final String ONE1 = Bn.enc1(Bn.G1), ONE2 = Bn.enc2(Bn.G2), ZERO2 = Bn.enc2(null), ZEROT = Bn.encT(Bn.one12());
    static String ONET;
    static synchronized String oneT() { if (ONET == null) ONET = Bn.encT(Bn.gt(BigInteger.ONE)); return ONET; }
    public static Value B1Base() { return Num.str(ONE1); }
    public static Value B2Base() { return Num.str(ONE2); }
    public static Value B2Zero() { return Num.str(ZERO2); }
    public static Value BTBase() { return Num.str(oneT()); }
    public static Value BTZero() { return Num.str(ZEROT); }
    public static Value B1Multi(Value ks, Value es) {
        return memo(key("1", ks, es), () -> {
            BigInteger[] k = scalars(ks);
            Value[] e = Num.seq(es);
            BigInteger[][][] p = new BigInteger[e.length][][];
            for (int i = 0; i < e.length; i++) p[i] = g1(Num.text(e[i]));
            return Bn.enc1(multi(k, p));
        });
    }
    public static Value B2Multi(Value ks, Value es) {
        return memo(key("2", ks, es), () -> {
            BigInteger[] k = scalars(ks);
            Value[] e = Num.seq(es);
            BigInteger[][][] p = new BigInteger[e.length][][];
            BigInteger[][] fixed = null;
            for (int i = 0; i < e.length; i++) {
                String s = Num.text(e[i]);
                if (s.equals(ONE2)) { fixed = Bn.addA(fixed, Bn.g2(k[i])); k[i] = BigInteger.ZERO; }
                p[i] = g2(s);
            }
            return Bn.enc2(Bn.addA(multi(k, p), fixed));
        });
    }
    public static Value BTMulti(Value ks, Value es) {
        return memo(key("t", ks, es), () -> {
            BigInteger[] k = scalars(ks), r = Bn.one12();
            Value[] e = Num.seq(es);
            for (int i = 0; i < e.length; i++) {
                String s = Num.text(e[i]);
                if (k[i].signum() == 0) continue;
                r = Bn.mul12(r, k[i].equals(BigInteger.ONE) ? gt(s) : s.equals(oneT()) ? Bn.gt(k[i])
                    : k[i].equals(R.subtract(BigInteger.ONE)) ? inv12(gt(s)) : Bn.pow12(gt(s), k[i]));
            }
            return Bn.encT(r);
        });
    }
    public static Value BPair(Value a, Value b) {
        String x = Num.text(a), y = Num.text(b);
        return memo("p" + x + y, () -> Bn.encT(pair(g1(x), g2(y))));
    }
    static String c2(String h, int i) { return "(" + w(h, i) + "," + w(h, i + 1) + ")"; }
    public static Value B2TextOf(Value e) {
        String h = Num.text(e);
        return Num.str(h.equals(ZERO2) ? "bn256.G2((0,0), (0,1), (0,0))" : "bn256.G2(" + c2(h, 0) + ", " + c2(h, 2) + ", (0,1))");
    }
    public static Value BTTextOf(Value e) {
        String h = Num.text(e);
        return Num.str("bn256.GT((" + c2(h, 0) + "," + c2(h, 2) + "," + c2(h, 4) + "),(" + c2(h, 6) + "," + c2(h, 8) + "," + c2(h, 10) + "))");
    }
}
