import java.math.BigInteger;
import tlc2.value.impl.*;

/** Strings given by code points, and the curve equation, for module Points. */
public final class Points {
    static String cps(Value s) {
        StringBuilder b = new StringBuilder();
        for (Value v : Num.seq(s)) b.appendCodePoint(((IntValue) v).val);
        return b.toString();
    }
    public static Value PointText(Value x, Value y) { return Num.str(Num.big(x) + "," + Num.big(y)); }
    public static Value HashCps(Value s) { return Num.str(Secp.signed(cps(s))); }
    public static Value POn(Value x, Value y) { return Num.bool(Secp.on(Num.big(x), Num.big(y))); }
    public static Value FieldP() { return Num.str(Secp.P); }
    /** a y with (x, y) on the curve, or "none" */
    public static Value PLiftY(Value x) {
        BigInteger a = Num.big(x), f = a.multiply(a).multiply(a).add(Secp.SEVEN).mod(Secp.P);
        BigInteger y = f.modPow(Secp.P.add(BigInteger.ONE).shiftRight(2), Secp.P);
        return Num.str(y.multiply(y).mod(Secp.P).equals(f) ? y.toString() : "none");
    }
}
