import java.math.BigInteger;
import tlc2.value.impl.*;

/** SHA-256 transcripts, generator names and point texts for module Transcript. */
public final class Transcript {
    static byte[] digest(Value texts) {
        StringBuilder b = new StringBuilder();
        for (Value v : Num.seq(texts)) b.append(Num.text(v));
        return Num.sha(Secp.utf8(b.toString()));
    }
    public static Value ChHash(Value texts) { return Num.str(new BigInteger(1, digest(texts))); }
    public static Value ChSigned(Value texts) { return Num.str(new BigInteger(digest(texts))); }
    public static Value TextDigest(Value texts) {
        byte[] d = digest(texts);
        StringBuilder b = new StringBuilder();
        for (int i = 0; i < 20; i++) b.append(String.format("%02x", d[i]));
        return Num.str(b.toString());
    }
    public static Value GensRep(Value g, Value h, Value gg, Value hh) {
        Value[] a = Num.seq(gg), b = Num.seq(hh);
        StringBuilder t = new StringBuilder();
        t.append(ptext(g)).append(ptext(h));
        for (Value v : a) t.append(ptext(v));
        for (Value v : b) t.append(ptext(v));
        byte[] d = Num.sha(Secp.utf8(t.toString()));
        StringBuilder r = new StringBuilder();
        for (int i = 0; i < 20; i++) r.append(String.format("%02x", d[i]));
        return Num.str(r + "/" + a.length + "/" + b.length);
    }
    static String ptext(Value p) {
        String s = Num.text(p);
        return s.equals("inf") ? "P256(<nil>,<nil>)" : "P256(" + s + ")";
    }
    public static Value XY(Value p) {
        String s = Num.text(p);
        return Num.str(s.equals("inf") ? "<nil><nil>" : s.replace(",", ""));
    }
    public static Value PText(Value p) {
        return Num.str(ptext(p));
    }
    public static Value Dec(Value x) { return Num.str(Num.big(x)); }
    public static Value NameH() { return Num.str("BulletproofsDoesNotNeedTrustedSetupH"); }
    public static Value NameU() { return Num.str("BulletproofsDoesNotNeedTrustedSetupU"); }
    static Value name(String k, Value i) {
        return Num.str("BulletproofsDoesNotNeedTrustedSetupH" + k + new String(Character.toChars(Num.sml(i))));
    }
    public static Value NameGg(Value i) { return name("g", i); }
    public static Value NameHh(Value i) { return name("h", i); }
    public static Value PIsInf(Value p) { return Num.bool(Num.text(p).equals("inf") || Num.text(p).equals("0,0")); }
    public static Value POk(Value p) {
        String s = Num.text(p);
        if (s.equals("nil") || s.equals("half")) return Num.bool(false);
        if (s.equals("inf") || s.equals("0,0")) return Num.bool(true);
        int c = s.indexOf(',');
        BigInteger x = new BigInteger(s.substring(0, c)), y = new BigInteger(s.substring(c + 1));
        return Num.bool(x.signum() >= 0 && y.signum() >= 0 && x.compareTo(Secp.P) < 0 && y.compareTo(Secp.P) < 0 && Secp.on(x, y));
    }
}
