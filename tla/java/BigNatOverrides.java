import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** Java implementations of the operators of BigNat.tla marked (OVR). */
public class BigNatOverrides implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] { BigNatOverrides.class, EcOverrides.class }; }

    static final TupleValue ZERO = new TupleValue(new Value[0]);
    static final Value[] SMALL = new Value[32768];
    static { for (int i = 0; i < SMALL.length; i++) SMALL[i] = IntValue.gen(i); }

    static BigInteger big(Value v) {
        Value[] e;
        if (v instanceof TupleValue) e = ((TupleValue) v).elems;
        else {
            Value t = v.toTuple();
            if (t == null) throw new RuntimeException("not a BigNat: " + v);
            e = ((TupleValue) t).elems;
        }
        int n = e.length;
        if (n == 0) return BigInteger.ZERO;
        if (n <= 4) {
            long r = 0;
            for (int i = n - 1; i >= 0; i--) r = (r << 15) | ((IntValue) e[i]).val;
            return BigInteger.valueOf(r);
        }
        int nb = (n * 15 + 31) / 32;
        byte[] mag = new byte[nb * 4];
        long acc = 0; int bits = 0; int pos = mag.length - 1;
        for (int i = 0; i < n; i++) {
            acc |= ((long) ((IntValue) e[i]).val) << bits;
            bits += 15;
            while (bits >= 8) { mag[pos--] = (byte) acc; acc >>>= 8; bits -= 8; }
        }
        while (pos >= 0) { mag[pos--] = (byte) acc; acc >>>= 8; }
        return new BigInteger(1, mag);
    }

    static Value tla(BigInteger b) {
        int bl = b.bitLength();
        if (bl == 0) return ZERO;
        int n = (bl + 14) / 15;
        Value[] e = new Value[n];
        byte[] mag = b.toByteArray();
        long acc = 0; int bits = 0; int k = 0;
        for (int pos = mag.length - 1; pos >= 0; pos--) {
            acc |= ((long) (mag[pos] & 0xff)) << bits;
            bits += 8;
            if (bits >= 15 && k < n) { e[k++] = SMALL[(int) (acc & 0x7fff)]; acc >>>= 15; bits -= 15; }
        }
        while (k < n) { e[k++] = SMALL[(int) (acc & 0x7fff)]; acc >>>= 15; }
        return new TupleValue(e);
    }

    static int i(Value v) { return ((IntValue) v).val; }

    @TLAPlusOperator(identifier = "BNat", module = "BigNat", warn = false)
    public static Value bnat(Value v) { return tla(BigInteger.valueOf(i(v))); }
    @TLAPlusOperator(identifier = "BHex", module = "BigNat", warn = false)
    public static Value bhex(Value v) { return tla(new BigInteger(((StringValue) v).val.toString(), 16)); }
    @TLAPlusOperator(identifier = "BLEHex", module = "BigNat", warn = false)
    public static Value blehex(Value v) {
        String s = ((StringValue) v).val.toString();
        StringBuilder b = new StringBuilder("0");
        for (int k = s.length() - 2; k >= 0; k -= 2) b.append(s, k, k + 2);
        return tla(new BigInteger(b.toString(), 16));
    }
    @TLAPlusOperator(identifier = "BToDec", module = "BigNat", warn = false)
    public static Value btodec(Value v) { return new StringValue(big(v).toString()); }
    @TLAPlusOperator(identifier = "BToHex", module = "BigNat", warn = false)
    public static Value btohex(Value v) { return new StringValue(big(v).toString(16)); }
    @TLAPlusOperator(identifier = "BCmp", module = "BigNat", warn = false)
    public static Value bcmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
    @TLAPlusOperator(identifier = "BAdd", module = "BigNat", warn = false)
    public static Value badd(Value a, Value b) { return tla(big(a).add(big(b))); }
    @TLAPlusOperator(identifier = "BSub", module = "BigNat", warn = false)
    public static Value bsub(Value a, Value b) {
        BigInteger r = big(a).subtract(big(b));
        if (r.signum() < 0) throw new RuntimeException("BSub: negative result");
        return tla(r);
    }
    @TLAPlusOperator(identifier = "BMul", module = "BigNat", warn = false)
    public static Value bmul(Value a, Value b) { return tla(big(a).multiply(big(b))); }
    @TLAPlusOperator(identifier = "BDiv", module = "BigNat", warn = false)
    public static Value bdiv(Value a, Value b) { return tla(big(a).divide(big(b))); }
    @TLAPlusOperator(identifier = "BMod", module = "BigNat", warn = false)
    public static Value bmod(Value a, Value b) { return tla(big(a).mod(big(b))); }
    @TLAPlusOperator(identifier = "BPow", module = "BigNat", warn = false)
    public static Value bpow(Value a, Value k) { return tla(big(a).pow(i(k))); }
    @TLAPlusOperator(identifier = "BBits", module = "BigNat", warn = false)
    public static Value bbits(Value a) { return IntValue.gen(big(a).bitLength()); }
    @TLAPlusOperator(identifier = "BBit", module = "BigNat", warn = false)
    public static Value bbit(Value a, Value k) { return IntValue.gen(big(a).testBit(i(k)) ? 1 : 0); }
    @TLAPlusOperator(identifier = "BAddMod", module = "BigNat", warn = false)
    public static Value baddmod(Value a, Value b, Value m) { return tla(big(a).add(big(b)).mod(big(m))); }
    @TLAPlusOperator(identifier = "BSubMod", module = "BigNat", warn = false)
    public static Value bsubmod(Value a, Value b, Value m) { return tla(big(a).subtract(big(b)).mod(big(m))); }
    @TLAPlusOperator(identifier = "BMulMod", module = "BigNat", warn = false)
    public static Value bmulmod(Value a, Value b, Value m) { return tla(big(a).multiply(big(b)).mod(big(m))); }
    @TLAPlusOperator(identifier = "BPowMod", module = "BigNat", warn = false)
    public static Value bpowmod(Value a, Value e, Value m) { return tla(big(a).modPow(big(e), big(m))); }
    @TLAPlusOperator(identifier = "BInvMod", module = "BigNat", warn = false)
    public static Value binvmod(Value a, Value m) {
        BigInteger x = big(a), n = big(m);
        return tla(inv(x, n));
    }
    @TLAPlusOperator(identifier = "BSqrt", module = "BigNat", warn = false)
    public static Value bsqrt(Value a) { return tla(big(a).sqrt()); }
    @TLAPlusOperator(identifier = "BToInt", module = "BigNat", warn = false)
    public static Value btoint(Value a) { return IntValue.gen(big(a).intValueExact()); }
    @TLAPlusOperator(identifier = "BBitSeq", module = "BigNat", warn = false)
    public static Value bbitseq(Value a) {
        BigInteger x = big(a);
        int n = x.bitLength();
        Value[] e = new Value[n];
        for (int k = 0; k < n; k++) e[k] = SMALL[x.testBit(n - 1 - k) ? 1 : 0];
        return new TupleValue(e);
    }
    static BigInteger inv(BigInteger x, BigInteger m) {
        if (x.signum() == 0 || m.equals(BigInteger.ONE)) return BigInteger.ZERO;
        try { return x.modInverse(m); } catch (ArithmeticException e) { return BigInteger.ZERO; }
    }
    static BigInteger[] pair(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        return new BigInteger[] { big(e[0]), big(e[1]) };
    }
    static Value pairv(BigInteger a, BigInteger b) { return new TupleValue(tla(a), tla(b)); }
    @TLAPlusOperator(identifier = "BCAdd", module = "BigNat", warn = false)
    public static Value bcadd(Value x, Value y, Value m) {
        BigInteger[] a = pair(x), b = pair(y); BigInteger n = big(m);
        return pairv(a[0].add(b[0]).mod(n), a[1].add(b[1]).mod(n));
    }
    @TLAPlusOperator(identifier = "BCSub", module = "BigNat", warn = false)
    public static Value bcsub(Value x, Value y, Value m) {
        BigInteger[] a = pair(x), b = pair(y); BigInteger n = big(m);
        return pairv(a[0].subtract(b[0]).mod(n), a[1].subtract(b[1]).mod(n));
    }
    @TLAPlusOperator(identifier = "BCMul", module = "BigNat", warn = false)
    public static Value bcmul(Value x, Value y, Value m) {
        BigInteger[] a = pair(x), b = pair(y); BigInteger n = big(m);
        return pairv(a[0].multiply(b[0]).subtract(a[1].multiply(b[1])).mod(n),
                     a[0].multiply(b[1]).add(a[1].multiply(b[0])).mod(n));
    }
    @TLAPlusOperator(identifier = "BCInv", module = "BigNat", warn = false)
    public static Value bcinv(Value x, Value m) {
        BigInteger[] a = pair(x); BigInteger n = big(m);
        BigInteger i = inv(a[0].multiply(a[0]).add(a[1].multiply(a[1])).mod(n), n);
        return pairv(a[0].multiply(i).mod(n), a[1].multiply(i).negate().mod(n));
    }
}
