import java.io.ByteArrayOutputStream;
import java.math.BigInteger;
import tlc2.value.impl.*;

/** SHA-256 of numbers, for module Hashes. */
public final class Hashes {
    public static Value NumHash(Value xs) throws java.io.IOException {
        ByteArrayOutputStream b = new ByteArrayOutputStream();
        for (Value v : Num.seq(xs)) b.write(Num.big(v).toByteArray());
        return Num.str(new BigInteger(Num.sha(b.toByteArray())));
    }
}
