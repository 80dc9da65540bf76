import java.math.BigInteger;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/** secp256k1 for module Secp, written from the curve's definition (SEC 2, 2.4.1), Jacobian coordinates. */
public final class Secp {
    static final BigInteger P = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16);
    static final BigInteger N = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16);
    static final BigInteger GX = new BigInteger("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16);
    static final BigInteger GY = new BigInteger("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16);
    static final BigInteger TWO = BigInteger.TWO, THREE = BigInteger.valueOf(3), SEVEN = BigInteger.valueOf(7);
    static final BigInteger C = BigInteger.ONE.shiftLeft(32).add(BigInteger.valueOf(977));   // 2^256 - P
    static final BigInteger M256 = BigInteger.ONE.shiftLeft(256).subtract(BigInteger.ONE);

    static BigInteger red(BigInteger a) {           // a >= 0
        while (a.bitLength() > 256) a = a.and(M256).add(a.shiftRight(256).multiply(C));
        return a.compareTo(P) >= 0 ? a.subtract(P) : a;
    }
    static BigInteger mul(BigInteger a, BigInteger b) { return red(a.multiply(b)); }
    static BigInteger sub(BigInteger a, BigInteger b) { BigInteger r = a.subtract(b); return r.signum() < 0 ? r.add(P) : r; }
    static BigInteger dbl(BigInteger a) { BigInteger r = a.shiftLeft(1); return r.compareTo(P) >= 0 ? r.subtract(P) : r; }

    /** Jacobian point; z = 0 is infinity */
    static final class J {
        final BigInteger x, y, z;
        J(BigInteger x, BigInteger y, BigInteger z) { this.x = x; this.y = y; this.z = z; }
        boolean inf() { return z.signum() == 0; }
    }
    static final J INF = new J(BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO);
    static final J G = new J(GX, GY, BigInteger.ONE);

    static J twice(J a) {
        if (a.inf() || a.y.signum() == 0) return INF;
        BigInteger y2 = mul(a.y, a.y), s = dbl(dbl(mul(a.x, y2)));
        BigInteger x2 = mul(a.x, a.x), m = red(x2.multiply(THREE));
        BigInteger x = sub(mul(m, m), dbl(s));
        BigInteger y = sub(mul(m, sub(s, x)), dbl(dbl(dbl(mul(y2, y2)))));
        return new J(x, y, dbl(mul(a.y, a.z)));
    }
    static J add(J a, J b) {
        if (a.inf()) return b;
        if (b.inf()) return a;
        boolean one = b.z.equals(BigInteger.ONE);
        BigInteger z1 = mul(a.z, a.z), z2 = one ? BigInteger.ONE : mul(b.z, b.z);
        BigInteger u1 = one ? a.x : mul(a.x, z2), u2 = mul(b.x, z1);
        BigInteger s1 = one ? a.y : mul(a.y, mul(z2, b.z)), s2 = mul(b.y, mul(z1, a.z));
        BigInteger h = sub(u2, u1), r = sub(s2, s1);
        if (h.signum() == 0) return r.signum() == 0 ? twice(a) : INF;
        BigInteger h2 = mul(h, h), h3 = mul(h2, h), v = mul(u1, h2);
        BigInteger x = sub(sub(mul(r, r), h3), dbl(v));
        BigInteger y = sub(mul(r, sub(v, x)), mul(s1, h3));
        BigInteger z = mul(h, a.z);
        return new J(x, y, one ? z : mul(z, b.z));
    }
    static J neg(J a) { return a.inf() ? a : new J(a.x, a.y.signum() == 0 ? a.y : P.subtract(a.y), a.z); }
    static J affine(J a) {
        if (a.inf() || a.z.equals(BigInteger.ONE)) return a;
        BigInteger i = a.z.modInverse(P), i2 = mul(i, i);
        return new J(mul(a.x, i2), mul(a.y, mul(i2, i)), BigInteger.ONE);
    }
    static J multi(BigInteger[] ks, J[] ps) {
        int n = ks.length;
        J[][] tab = new J[n][];
        BigInteger[] k = new BigInteger[n];
        int bits = 0;
        for (int i = 0; i < n; i++) {
            k[i] = ks[i].mod(N);
            bits = Math.max(bits, k[i].bitLength());
            int top = k[i].bitLength() > 16 ? 16 : 4;
            tab[i] = new J[16];
            tab[i][1] = ps[i];
            for (int j = 2; j < 16; j++) tab[i][j] = (j & 1) == 0 ? twice(tab[i][j / 2]) : add(tab[i][j - 1], ps[i]);
        }
        J r = INF;
        for (int w = (bits + 3) / 4 - 1; w >= 0; w--) {
            for (int d = 0; d < 4; d++) r = twice(r);
            for (int i = 0; i < n; i++) {
                int v = 0;
                for (int d = 3; d >= 0; d--) v = v * 2 + (k[i].testBit(4 * w + d) ? 1 : 0);
                if (v != 0) r = add(r, tab[i][v]);
            }
        }
        return r;
    }

    static J pt(Value v) {
        String s = Num.text(v);
        if (s.equals("inf") || s.equals("0,0")) return INF;
        int c = s.indexOf(',');
        return new J(new BigInteger(s.substring(0, c)), new BigInteger(s.substring(c + 1)), BigInteger.ONE);
    }
    static Value out(J a) {
        J b = affine(a);
        return Num.str(b.inf() ? "inf" : b.x + "," + b.y);
    }
    static boolean on(BigInteger x, BigInteger y) {
        return y.multiply(y).subtract(x.multiply(x).multiply(x)).subtract(SEVEN).mod(P).signum() == 0;
    }
    static final ConcurrentHashMap<String, Value> hashes = new ConcurrentHashMap<>();

    /** a digest read as a signed number, as everywhere in this project */
    static BigInteger signed(String s) { return new BigInteger(Num.sha(utf8(s))); }
    static byte[] utf8(String s) { return s.getBytes(java.nio.charset.StandardCharsets.UTF_8); }

    static Value hash(String m) {
        for (int i = 0; i < 256; i++) {
            BigInteger x = signed(i + m).mod(P);
            BigInteger f = x.multiply(x).multiply(x).add(SEVEN).mod(P);
            BigInteger y = f.modPow(P.add(BigInteger.ONE).shiftRight(2), P);   // P = 3 mod 4
            if (y.multiply(y).mod(P).equals(f)) return Num.str(x + "," + y);
        }
        return Num.str("none");
    }

    public static Value QOrd() { return Num.str(N); }
    public static Value PInf() { return Num.str("inf"); }
    public static Value PBase() { return Num.str(GX + "," + GY); }
    public static Value PHash(Value name) { return hashes.computeIfAbsent(Num.text(name), Secp::hash); }
    public static Value PAdd(Value a, Value b) { return out(add(pt(a), pt(b))); }
    public static Value PNeg(Value a) { return out(neg(pt(a))); }
    public static Value PMul(Value k, Value a) { return out(multi(new BigInteger[]{Num.big(k)}, new J[]{pt(a)})); }
    public static Value PEq(Value a, Value b) { return Num.bool(Num.text(a).equals(Num.text(b))); }
    public static Value PMulti(Value ks, Value ps) {
        Value[] k = Num.seq(ks), p = Num.seq(ps);
        BigInteger[] kk = new BigInteger[k.length];
        J[] pp = new J[k.length];
        for (int i = 0; i < k.length; i++) { kk[i] = Num.big(k[i]); pp[i] = pt(p[i]); }
        return out(multi(kk, pp));
    }
}
