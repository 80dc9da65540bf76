import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/** Unbounded integers for module Num: every number is a decimal string. */
public final class Num {
    static BigInteger big(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        String s = ((StringValue) v).val.toString();
        return new BigInteger(s);
    }
    static Value str(BigInteger b) { return new StringValue(b.toString()); }
    static Value str(String s) { return new StringValue(s); }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static int sml(Value v) { return v instanceof IntValue ? ((IntValue) v).val : big(v).intValueExact(); }
    static String text(Value v) { return v instanceof StringValue ? ((StringValue) v).val.toString() : v.toString(); }
    /** elements of a TLA+ sequence, in any of TLC's representations */
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return ((TupleValue) t).elems;
    }

    public static Value NLit(Value a) { return str(big(a)); }
    public static Value NInt(Value a) { return IntValue.gen(big(a).intValueExact()); }
    public static Value NAdd(Value a, Value b) { return str(big(a).add(big(b))); }
    public static Value NSub(Value a, Value b) { return str(big(a).subtract(big(b))); }
    public static Value NMul(Value a, Value b) { return str(big(a).multiply(big(b))); }
    public static Value NNeg(Value a) { return str(big(a).negate()); }
    public static Value NAbs(Value a) { return str(big(a).abs()); }
    public static Value NMod(Value a, Value m) { return str(big(a).mod(big(m))); }
    public static Value NDiv(Value a, Value m) {
        BigInteger x = big(a), y = big(m);
        return str(x.subtract(x.mod(y)).divide(y));
    }
    public static Value NLt(Value a, Value b) { return bool(big(a).compareTo(big(b)) < 0); }
    public static Value NLe(Value a, Value b) { return bool(big(a).compareTo(big(b)) <= 0); }
    public static Value NEq(Value a, Value b) { return bool(big(a).equals(big(b))); }
    public static Value NPow(Value a, Value k) { return str(big(a).pow(sml(k))); }
    public static Value NPowMod(Value b, Value e, Value m) { return str(big(b).modPow(big(e), big(m))); }
    public static Value NIsInvertible(Value a, Value m) { return bool(big(a).gcd(big(m)).equals(BigInteger.ONE)); }
    public static Value NInv(Value a, Value m) { return str(big(a).modInverse(big(m))); }

    static byte[] sha(byte[] in) {
        try { return MessageDigest.getInstance("SHA-256").digest(in); }
        catch (Exception e) { throw new RuntimeException(e); }
    }
    public static Value NRand(Value seed, Value tag, Value bound) {
        BigInteger m = big(bound), r = BigInteger.ZERO;
        int need = m.bitLength() + 64;
        for (int i = 0; r.bitLength() < need && i * 256 < need + 256; i++)
            r = r.shiftLeft(256).or(new BigInteger(1, sha((text(seed) + "/" + text(tag) + "/" + i).getBytes())));
        return str(r.mod(m));
    }
}
