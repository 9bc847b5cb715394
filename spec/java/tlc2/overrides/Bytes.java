package tlc2.overrides;

import java.io.FileOutputStream;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import tlc2.value.impl.*;

/** TLC's implementations of the operators that module Bytes defines (or leaves abstract). */
public final class Bytes {
    static final BigInteger R = new BigInteger("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16);
    static final byte[] DST = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_".getBytes(StandardCharsets.US_ASCII);
    static final char[] HX = "0123456789abcdef".toCharArray();
    static final ThreadLocal<MessageDigest> SHA = ThreadLocal.withInitial(() -> {
        try { return MessageDigest.getInstance("SHA-256"); } catch (Exception e) { throw new RuntimeException(e); }
    });

    static String s(Value v) {
        if (v instanceof StringValue) return ((StringValue) v).val.toString();
        throw new RuntimeException("Bytes: string expected, got " + v);
    }
    static int i(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        throw new RuntimeException("Bytes: integer expected, got " + v);
    }
    static Value str(String x) { return new StringValue(x); }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value num(BigInteger b) {
        if (b.bitLength() > 31) throw new RuntimeException("Bytes: integer out of TLC's range: " + b);
        return IntValue.gen(b.intValue());
    }
    static Value num(long b) {
        if (b > Integer.MAX_VALUE || b < Integer.MIN_VALUE) throw new RuntimeException("Bytes: integer out of TLC's range: " + b);
        return IntValue.gen((int) b);
    }
    static byte[] un(String h) {
        byte[] o = new byte[h.length() / 2];
        for (int k = 0; k < o.length; k++) o[k] = (byte) (Character.digit(h.charAt(2 * k), 16) * 16 + Character.digit(h.charAt(2 * k + 1), 16));
        return o;
    }
    static String hex(byte[] b) {
        char[] c = new char[2 * b.length];
        for (int k = 0; k < b.length; k++) { c[2 * k] = HX[(b[k] >> 4) & 15]; c[2 * k + 1] = HX[b[k] & 15]; }
        return new String(c);
    }
    static byte[] sha(byte[] b) { return SHA.get().digest(b); }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("Bytes: sequence expected, got " + v);
        return ((TupleValue) t).elems;
    }

    @TLAPlusOperator(identifier = "Sha256", module = "Bytes", warn = false)
    public static Value sha256(final Value h) { return str(hex(sha(un(s(h))))); }

    @TLAPlusOperator(identifier = "HLen", module = "Bytes", warn = false)
    public static Value hlen(final Value h) { return IntValue.gen(s(h).length() / 2); }

    @TLAPlusOperator(identifier = "Slice", module = "Bytes", warn = false)
    public static Value slice(final Value h, final Value from, final Value n) {
        int a = 2 * i(from);
        return str(s(h).substring(a, a + 2 * i(n)));
    }
    @TLAPlusOperator(identifier = "ByteAt", module = "Bytes", warn = false)
    public static Value byteAt(final Value h, final Value k) {
        int a = 2 * i(k);
        return IntValue.gen(Integer.parseInt(s(h).substring(a, a + 2), 16));
    }
    @TLAPlusOperator(identifier = "BitAt", module = "Bytes", warn = false)
    public static Value bitAt(final Value h, final Value k) {
        int b = i(k);
        int a = 2 * (b / 8);
        return IntValue.gen((Integer.parseInt(s(h).substring(a, a + 2), 16) >> (b % 8)) & 1);
    }
    @TLAPlusOperator(identifier = "LE", module = "Bytes", warn = false)
    public static Value le(final Value n, final Value len) {
        long x = i(n);
        if (x < 0) throw new RuntimeException("LE of a negative number");
        int l = i(len);
        byte[] o = new byte[l];
        for (int k = 0; k < l && k < 8; k++) o[k] = (byte) (x >>> (8 * k));
        return str(hex(o));
    }
    static BigInteger fromLE(String h) {
        byte[] b = un(h);
        byte[] r = new byte[b.length + 1];
        for (int k = 0; k < b.length; k++) r[b.length - k] = b[k];
        return new BigInteger(r);
    }
    @TLAPlusOperator(identifier = "FromLE", module = "Bytes", warn = false)
    public static Value fromLEv(final Value h) { return num(fromLE(s(h))); }

    @TLAPlusOperator(identifier = "ModLE", module = "Bytes", warn = false)
    public static Value modLE(final Value h, final Value m) { return num(fromLE(s(h)).mod(BigInteger.valueOf(i(m)))); }

    @TLAPlusOperator(identifier = "XorHex", module = "Bytes", warn = false)
    public static Value xor(final Value a, final Value b) {
        byte[] x = un(s(a)), y = un(s(b));
        for (int k = 0; k < x.length; k++) x[k] ^= y[k];
        return str(hex(x));
    }
    @TLAPlusOperator(identifier = "Repeat", module = "Bytes", warn = false)
    public static Value repeat(final Value h, final Value n) { return str(s(h).repeat(Math.max(0, i(n)))); }

    @TLAPlusOperator(identifier = "ConcatAll", module = "Bytes", warn = false)
    public static Value concatAll(final Value v) {
        StringBuilder sb = new StringBuilder();
        for (Value x : seq(v)) sb.append(s(x));
        return str(sb.toString());
    }
    @TLAPlusOperator(identifier = "PackBits", module = "Bytes", warn = false)
    public static Value packBits(final Value v) {
        Value[] e = seq(v);
        byte[] o = new byte[(e.length + 7) / 8];
        for (int k = 0; k < e.length; k++) if (i(e[k]) == 1) o[k / 8] |= 1 << (k % 8);
        return str(hex(o));
    }
    @TLAPlusOperator(identifier = "AsciiHex", module = "Bytes", warn = false)
    public static Value asciiHex(final Value v) { return str(hex(s(v).getBytes(StandardCharsets.UTF_8))); }

    @TLAPlusOperator(identifier = "Lower", module = "Bytes", warn = false)
    public static Value lower(final Value v) { return str(s(v).toLowerCase()); }

    // Merkle root of a full binary tree of 2^depth leaves, the given ones padded with zero leaves.
    static final String[] ZH = new String[65];
    static { byte[] z = new byte[32]; for (int k = 0; k <= 64; k++) { ZH[k] = hex(z); z = sha2(z, z); } }
    static byte[] sha2(byte[] a, byte[] b) {
        byte[] c = new byte[64];
        System.arraycopy(a, 0, c, 0, 32);
        System.arraycopy(b, 0, c, 32, 32);
        try { return MessageDigest.getInstance("SHA-256").digest(c); } catch (Exception e) { throw new RuntimeException(e); }
    }
    @TLAPlusOperator(identifier = "MerkleRoot", module = "Bytes", warn = false)
    public static Value merkleRoot(final Value leaves, final Value depth) {
        Value[] e = seq(leaves);
        int d = i(depth);
        if (d < 31 && e.length > (1L << d)) throw new RuntimeException("MerkleRoot: too many leaves " + e.length + " for depth " + d);
        byte[][] l = new byte[e.length][];
        for (int k = 0; k < e.length; k++) l[k] = un(s(e[k]));
        for (int k = 0; k < d; k++) {
            if (l.length == 0) return str(ZH[d]);
            byte[][] n = new byte[(l.length + 1) / 2][];
            for (int j = 0; j < n.length; j++) n[j] = sha2(l[2 * j], 2 * j + 1 < l.length ? l[2 * j + 1] : un(ZH[k]));
            l = n;
        }
        return str(l.length == 0 ? ZH[d] : hex(l[0]));
    }

    @TLAPlusOperator(identifier = "TreeDepth", module = "Bytes", warn = false)
    public static Value treeDepth(final Value n, final Value w) {
        BigInteger c = big(n).multiply(big(w)).add(BigInteger.valueOf(31)).shiftRight(5);
        return IntValue.gen(c.signum() == 0 ? 0 : c.subtract(BigInteger.ONE).bitLength());
    }
    @TLAPlusOperator(identifier = "UnpackBits", module = "Bytes", warn = false)
    public static Value unpackBits(final Value h, final Value n) {
        byte[] b = un(s(h));
        Value[] o = new Value[i(n)];
        for (int k = 0; k < o.length; k++) o[k] = IntValue.gen((b[k / 8] >> (k % 8)) & 1);
        return new TupleValue(o);
    }
    @TLAPlusOperator(identifier = "Dense", module = "Bytes", warn = false)
    public static Value expand(final Value v) {
        if (!(v instanceof RecordValue)) return v;
        RecordValue r = (RecordValue) v;
        Value len = r.apply(str("len"), 0), fill = r.apply(str("fill"), 0);
        Value[] o = new Value[i(len)];
        java.util.Arrays.fill(o, fill);
        for (Value p : seq(r.apply(str("at"), 0))) o[i(seq(p)[0])] = seq(p)[1];
        return new TupleValue(o);
    }

    // arithmetic whose intermediate results leave TLC's 32-bit integers
    @TLAPlusOperator(identifier = "MulDiv", module = "Bytes", warn = false)
    public static Value mulDiv(final Value a, final Value b, final Value c) { return num(Math.multiplyExact((long) i(a), (long) i(b)) / i(c)); }

    static BigInteger big(Value v) { return v instanceof IntValue ? BigInteger.valueOf(i(v)) : new BigInteger(s(v)); }
    @TLAPlusOperator(identifier = "BAdd", module = "Bytes", warn = false)
    public static Value badd(final Value a, final Value b) { return str(big(a).add(big(b)).toString()); }
    @TLAPlusOperator(identifier = "BSub", module = "Bytes", warn = false)
    public static Value bsub(final Value a, final Value b) { return str(big(a).subtract(big(b)).toString()); }
    @TLAPlusOperator(identifier = "BMul", module = "Bytes", warn = false)
    public static Value bmul(final Value a, final Value b) { return str(big(a).multiply(big(b)).toString()); }
    @TLAPlusOperator(identifier = "BDiv", module = "Bytes", warn = false)
    public static Value bdiv(final Value a, final Value b) { return str(big(a).divide(big(b)).toString()); }
    @TLAPlusOperator(identifier = "BMod", module = "Bytes", warn = false)
    public static Value bmod(final Value a, final Value b) { return str(big(a).mod(big(b)).toString()); }
    @TLAPlusOperator(identifier = "BCmp", module = "Bytes", warn = false)
    public static Value bcmp(final Value a, final Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
    @TLAPlusOperator(identifier = "BInt", module = "Bytes", warn = false)
    public static Value bint(final Value a) { return num(big(a)); }
    @TLAPlusOperator(identifier = "BStr", module = "Bytes", warn = false)
    public static Value bstr(final Value a) { return str(big(a).toString()); }
    @TLAPlusOperator(identifier = "BLE", module = "Bytes", warn = false)
    public static Value ble(final Value a, final Value len) {
        BigInteger x = big(a);
        if (x.signum() < 0) throw new RuntimeException("BLE of a negative number");
        byte[] o = new byte[i(len)];
        for (int k = 0; k < o.length; k++) o[k] = (byte) x.shiftRight(8 * k).intValue();
        return str(hex(o));
    }
    @TLAPlusOperator(identifier = "BFromLE", module = "Bytes", warn = false)
    public static Value bfromle(final Value a) { return str(fromLE(s(a)).toString()); }

    // the ideal signature scheme: a public key is its discrete logarithm
    static BigInteger h2(byte[] msg) {
        java.io.ByteArrayOutputStream o = new java.io.ByteArrayOutputStream();
        for (byte[] p : new byte[][] { DST, new byte[0], msg }) {
            for (int k = 0; k < 8; k++) o.write((int) (((long) p.length) >>> (8 * k)));
            o.write(p, 0, p.length);
        }
        return new BigInteger(1, sha(o.toByteArray())).mod(R);
    }
    /** null when the encoding is malformed */
    static BigInteger point(String h, int n) {
        if (h.length() != 2 * n) return null;
        byte[] b = un(h);
        if (h.startsWith("c0")) { for (int k = 1; k < n; k++) if (b[k] != 0) return null; return BigInteger.ZERO; }
        if (!h.startsWith("80")) return null;
        for (int k = 1; k < n - 32; k++) if (b[k] != 0) return null;
        BigInteger x = new BigInteger(h.substring(2 * (n - 32)), 16);
        return x.signum() == 0 || x.compareTo(R) >= 0 ? null : x;
    }
    static String enc(BigInteger x, int n) {
        if (x.signum() == 0) return "c0" + "00".repeat(n - 1);
        String t = x.toString(16);
        return "80" + "00".repeat(n - 33) + "0".repeat(64 - t.length()) + t;
    }
    // a secret key: a small integer, or 32 bytes, big-endian
    private static BigInteger secret(final Value sk) {
        return sk instanceof StringValue ? new BigInteger(1, un(s(sk))).mod(R) : BigInteger.valueOf(i(sk));
    }
    @TLAPlusOperator(identifier = "IdealPk", module = "Bytes", warn = false)
    public static Value pk(final Value sk) { return str(enc(secret(sk), 48)); }
    @TLAPlusOperator(identifier = "IdealSign", module = "Bytes", warn = false)
    public static Value sign(final Value sk, final Value msg) { return str(enc(secret(sk).multiply(h2(un(s(msg)))).mod(R), 96)); }
    @TLAPlusOperator(identifier = "IdealPkValid", module = "Bytes", warn = false)
    public static Value pkValid(final Value pk) { BigInteger p = point(s(pk), 48); return bool(p != null && p.signum() != 0); }
    @TLAPlusOperator(identifier = "IdealPkDecodes", module = "Bytes", warn = false)
    public static Value pkDecodes(final Value pk) { return bool(point(s(pk), 48) != null); }
    @TLAPlusOperator(identifier = "IdealSigDecodes", module = "Bytes", warn = false)
    public static Value sigDecodes(final Value sg) { return bool(point(s(sg), 96) != null); }
    @TLAPlusOperator(identifier = "IdealSum", module = "Bytes", warn = false)
    public static Value sum(final Value v, final Value n) {
        BigInteger t = BigInteger.ZERO;
        for (Value x : seq(v)) t = t.add(point(s(x), i(n)));
        return str(enc(t.mod(R), i(n)));
    }
    /** does sig equal the sum over k of log(pks[k]) * H(msgs[k])? */
    @TLAPlusOperator(identifier = "IdealCheck", module = "Bytes", warn = false)
    public static Value check(final Value pks, final Value msgs, final Value sg) {
        BigInteger t = BigInteger.ZERO, x = point(s(sg), 96);
        Value[] p = seq(pks), m = seq(msgs);
        for (int k = 0; k < p.length; k++) t = t.add(point(s(p[k]), 48).multiply(h2(un(s(m[k])))));
        return bool(x != null && t.mod(R).equals(x));
    }

    @TLAPlusOperator(identifier = "Same", module = "Bytes", warn = false)
    public static Value same(final Value a, final Value b) {
        try { return bool(a.equals(b)); } catch (RuntimeException e) { return bool(false); }
    }

    @TLAPlusOperator(identifier = "Merge", module = "Bytes", warn = false)
    public static Value merge(final Value a, final Value b) {
        RecordValue x = (RecordValue) a.toRcd(), y = (RecordValue) b.toRcd();
        java.util.LinkedHashMap<util.UniqueString, Value> m = new java.util.LinkedHashMap<>();
        for (int i = 0; i < x.names.length; i++) m.put(x.names[i], x.values[i]);
        for (int i = 0; i < y.names.length; i++) m.put(y.names[i], y.values[i]);
        RecordValue r = new RecordValue(m.keySet().toArray(new util.UniqueString[0]), m.values().toArray(new Value[0]), false);
        r.normalize();
        return r;
    }

    @Evaluation(definition = "Guard", module = "Bytes", warn = false, silent = true)
    public static Value guard(final tlc2.tool.impl.Tool tool, final tla2sany.semantic.ExprOrOpArgNode[] args, final tlc2.util.Context c,
                              final tlc2.tool.TLCState s0, final tlc2.tool.TLCState s1, final int control, final tlc2.tool.coverage.CostModel cm) {
        try {
            return tool.eval(args[0], c, s0, s1, control, cm);
        } catch (RuntimeException | StackOverflowError e) {
            String m = String.valueOf(e.getMessage()).replaceAll("(?s).*verflow.*", "overflow");
            if (m.equals("overflow") || e instanceof StackOverflowError) throw e;
            return tool.eval(args[1], c, s0, s1, control, cm);
        }
    }

    // deviations of the code that are on record as known findings, assumed while evaluating an expression
    static final ThreadLocal<String> dev = ThreadLocal.withInitial(() -> "");
    @Evaluation(definition = "Assuming", module = "Bytes", warn = false, silent = true)
    public static Value assuming(final tlc2.tool.impl.Tool tool, final tla2sany.semantic.ExprOrOpArgNode[] args, final tlc2.util.Context c,
                                 final tlc2.tool.TLCState s0, final tlc2.tool.TLCState s1, final int control, final tlc2.tool.coverage.CostModel cm) {
        String old = dev.get();
        dev.set(old + "," + s(tool.eval(args[0], c, s0, s1, control, cm)) + ",");
        try {
            Value v = tool.eval(args[1], c, s0, s1, control, cm);
            v.normalize();
            return v;
        } finally { dev.set(old); }
    }
    @TLAPlusOperator(identifier = "Deviates", module = "Bytes", warn = false)
    public static Value deviates(final Value id, final Value where) {
        return dev.get().contains("," + s(id) + ",") ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    // one line of output to the file named by the environment variable TLC_OUT
    // (only about one in TLC_EVERY, chosen by its content, when that is set)
    static FileOutputStream out;
    static final int EVERY = System.getenv("TLC_EVERY") == null ? 1 : Integer.parseInt(System.getenv("TLC_EVERY"));
    @TLAPlusOperator(identifier = "Emit", module = "Bytes", warn = false)
    public static Value emit(final Value v) {
        final String line = s(v) + "\n";
        return EVERY > 1 && Math.floorMod(line.hashCode() * 0x9E3779B1 >>> 8, EVERY) != 0 ? BoolValue.ValTrue : put(line);
    }
    static synchronized Value put(final String line) {
        try {
            if (out == null) out = new FileOutputStream(System.getenv("TLC_OUT"), true);
            out.write(line.getBytes(StandardCharsets.UTF_8));
            out.flush();
        } catch (Exception e) { throw new RuntimeException(e); }
        return BoolValue.ValTrue;
    }
}
