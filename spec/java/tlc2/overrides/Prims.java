package tlc2.overrides;

import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.text.Normalizer;
import java.util.*;
import javax.crypto.*;
import javax.crypto.spec.*;
import tlc2.value.impl.*;
import static tlc2.overrides.Bytes.*;

/** TLC's implementations of the operators of module Prims (standard primitives and bit packing). */
public final class Prims {
    static byte[] mac(String alg, byte[] key, byte[] msg) {
        try {
            Mac m = Mac.getInstance(alg);
            m.init(new SecretKeySpec(key.length == 0 ? new byte[1] : key, alg));
            return m.doFinal(msg);
        } catch (Exception e) { throw new RuntimeException(e); }
    }
    static byte[] cat(byte[]... v) {
        int n = 0;
        for (byte[] b : v) n += b.length;
        byte[] o = new byte[n];
        n = 0;
        for (byte[] b : v) { System.arraycopy(b, 0, o, n, b.length); n += b.length; }
        return o;
    }
    static byte[] be32(int x) { return new byte[] { (byte) (x >> 24), (byte) (x >> 16), (byte) (x >> 8), (byte) x }; }
    static byte[] pbkdf2(String alg, byte[] pass, byte[] salt, int rounds, int len) {
        byte[] out = new byte[0];
        for (int k = 1; out.length < len; k++) {
            byte[] u = mac(alg, pass, cat(salt, be32(k))), t = u.clone();
            for (int r = 1; r < rounds; r++) {
                u = mac(alg, pass, u);
                for (int j = 0; j < t.length; j++) t[j] ^= u[j];
            }
            out = cat(out, t);
        }
        return Arrays.copyOf(out, len);
    }
    @TLAPlusOperator(identifier = "HmacSha256", module = "Prims", warn = false)
    public static Value hmac(final Value key, final Value msg) { return str(hex(mac("HmacSHA256", un(s(key)), un(s(msg))))); }
    @TLAPlusOperator(identifier = "Pbkdf2Sha512", module = "Prims", warn = false)
    public static Value pb512(final Value pass, final Value salt, final Value rounds, final Value len) {
        return str(hex(pbkdf2("HmacSHA512", un(s(pass)), un(s(salt)), i(rounds), i(len))));
    }

    static void salsa8(int[] b) {
        int[] x = b.clone();
        int[][] q = {{0,4,8,12},{5,9,13,1},{10,14,2,6},{15,3,7,11},{0,1,2,3},{5,6,7,4},{10,11,8,9},{15,12,13,14}};
        for (int r = 0; r < 4; r++) for (int[] g : q) {
            x[g[1]] ^= Integer.rotateLeft(x[g[0]] + x[g[3]], 7);
            x[g[2]] ^= Integer.rotateLeft(x[g[1]] + x[g[0]], 9);
            x[g[3]] ^= Integer.rotateLeft(x[g[2]] + x[g[1]], 13);
            x[g[0]] ^= Integer.rotateLeft(x[g[3]] + x[g[2]], 18);
        }
        for (int k = 0; k < 16; k++) b[k] += x[k];
    }
    static void blockmix(int[] b, int[] y, int r) {
        int[] x = Arrays.copyOfRange(b, (2 * r - 1) * 16, 2 * r * 16);
        for (int k = 0; k < 2 * r; k++) {
            for (int j = 0; j < 16; j++) x[j] ^= b[k * 16 + j];
            salsa8(x);
            System.arraycopy(x, 0, y, (k % 2 == 0 ? k / 2 : r + k / 2) * 16, 16);
        }
    }
    static byte[] scrypt(byte[] pass, byte[] salt, int n, int r, int p, int len) {
        byte[] b = pbkdf2("HmacSHA256", pass, salt, 1, p * 128 * r);
        int w = 32 * r;
        int[] v = new int[n * w], y = new int[w];
        for (int q = 0; q < p; q++) {
            int[] x = new int[w];
            for (int k = 0; k < w; k++) { int o = q * 128 * r + 4 * k; x[k] = (b[o] & 255) | (b[o + 1] & 255) << 8 | (b[o + 2] & 255) << 16 | (b[o + 3] & 255) << 24; }
            for (int k = 0; k < n; k++) { System.arraycopy(x, 0, v, k * w, w); blockmix(x, y, r); int[] t = x; x = y; y = t; }
            for (int k = 0; k < n; k++) {
                int j = x[(2 * r - 1) * 16] & (n - 1);
                for (int m = 0; m < w; m++) x[m] ^= v[j * w + m];
                blockmix(x, y, r); int[] t = x; x = y; y = t;
            }
            for (int k = 0; k < w; k++) for (int m = 0; m < 4; m++) b[q * 128 * r + 4 * k + m] = (byte) (x[k] >> (8 * m));
        }
        return pbkdf2("HmacSHA256", pass, b, 1, len);
    }
    @TLAPlusOperator(identifier = "Scrypt", module = "Prims", warn = false)
    public static Value scrypt(final Value pass, final Value salt, final Value n, final Value r, final Value p, final Value len) {
        return str(hex(scrypt(un(s(pass)), un(s(salt)), i(n), i(r), i(p), i(len))));
    }
    @TLAPlusOperator(identifier = "Aes128", module = "Prims", warn = false)
    public static Value aes(final Value key, final Value block) {
        try {
            Cipher c = Cipher.getInstance("AES/ECB/NoPadding");
            c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(un(s(key)), "AES"));
            return str(hex(c.doFinal(un(s(block)))));
        } catch (Exception e) { throw new RuntimeException(e); }
    }

    static String utf(Value v) { return new String(un(s(v)), StandardCharsets.UTF_8); }
    static Value text(String t) { return str(hex(t.getBytes(StandardCharsets.UTF_8))); }
    @TLAPlusOperator(identifier = "Nfkd", module = "Prims", warn = false)
    public static Value nfkd(final Value v) { return text(Normalizer.normalize(utf(v), Normalizer.Form.NFKD)); }
    @TLAPlusOperator(identifier = "StripControls", module = "Prims", warn = false)
    public static Value strip(final Value v) {
        StringBuilder b = new StringBuilder();
        utf(v).codePoints().filter(c -> Character.getType(c) != Character.CONTROL).forEach(b::appendCodePoint);
        return text(b.toString());
    }
    @TLAPlusOperator(identifier = "SplitWhite", module = "Prims", warn = false)
    public static Value split(final Value v) {
        List<Value> out = new ArrayList<>();
        for (String w : utf(v).split("[\\u0009-\\u000d\\u0020\\u0085\\u00a0\\u1680\\u2000-\\u200a\\u2028\\u2029\\u202f\\u205f\\u3000]+"))
            if (!w.isEmpty()) out.add(text(w));
        return new TupleValue(out.toArray(new Value[0]));
    }
    static List<String> words;
    static Map<String, Integer> index;
    static synchronized void load() {
        if (words != null) return;
        try {
            List<String> w = Files.readAllLines(Paths.get(System.getProperty("TLA-Library").split(":")[0], "bip39_english.txt"));
            index = new HashMap<>();
            for (int k = 0; k < w.size(); k++) index.put(w.get(k), k);
            words = w;
        } catch (Exception e) { throw new RuntimeException(e); }
    }
    @TLAPlusOperator(identifier = "WordIndex", module = "Prims", warn = false)
    public static Value wordIndex(final Value v) { load(); return IntValue.gen(index.getOrDefault(utf(v), -1)); }
    @TLAPlusOperator(identifier = "WordAt", module = "Prims", warn = false)
    public static Value wordAt(final Value v) { load(); return text(words.get(i(v))); }

    @TLAPlusOperator(identifier = "Repack", module = "Prims", warn = false)
    public static Value repack(final Value h, final Value fb, final Value fs, final Value tb, final Value ts) {
        byte[] a = un(s(h));
        int fbits = i(fb), fskip = i(fs), tbits = i(tb), tskip = i(ts);
        int total = a.length * 8, gin = fbits - fskip, gout = tbits - tskip;
        int n = 0;
        for (int k = 0; k < total; k++) if (k % fbits >= fskip) n++;
        int groups = (n + gout - 1) / gout;
        byte[] o = new byte[(groups * tbits + 7) / 8];
        int j = 0;
        for (int k = 0; k < total; k++) if (k % fbits >= fskip) {
            if ((a[k / 8] >> (7 - k % 8) & 1) != 0) { int q = j / gout * tbits + tskip + j % gout; o[q / 8] |= 1 << (7 - q % 8); }
            j++;
        }
        return str(hex(o));
    }
    @TLAPlusOperator(identifier = "TrimZeros", module = "Prims", warn = false)
    public static Value trim(final Value h) {
        String t = s(h);
        int n = t.length();
        while (n >= 2 && t.charAt(n - 1) == '0' && t.charAt(n - 2) == '0') n -= 2;
        return str(t.substring(0, n));
    }

    // ---- the ideal polynomial commitment: the polynomial's value at a secret point
    static BigInteger frHash(byte[]... parts) {
        byte[] all = new byte[0];
        for (byte[] p : parts) {
            byte[] l = new byte[8];
            for (int k = 0; k < 8; k++) l[k] = (byte) ((long) p.length >> (8 * k));
            all = cat(all, l, p);
        }
        return new BigInteger(1, sha(all)).mod(R);
    }
    static final BigInteger SECRET = frHash("trusted setup".getBytes(StandardCharsets.US_ASCII));
    static final int BLOB = 131072;
    static BigInteger eval(byte[] blob, BigInteger z) {
        BigInteger r = BigInteger.ZERO;
        for (int k = blob.length / 32 - 1; k >= 0; k--) {
            BigInteger c = new BigInteger(1, Arrays.copyOfRange(blob, 32 * k, 32 * k + 32));
            if (c.compareTo(R) >= 0) return null;
            r = r.multiply(z).add(c).mod(R);
        }
        return r;
    }
    static byte[] full(Value h) { return Arrays.copyOf(un(s(h)), BLOB); }
    static byte[] whole(byte[] h) { return Arrays.copyOf(h, (h.length + 31) / 32 * 32); }
    static BigInteger scalar(Value v) {
        byte[] b = un(s(v));
        BigInteger x = new BigInteger(1, b);
        return b.length != 32 || x.compareTo(R) >= 0 ? null : x;
    }
    static String fe(BigInteger x) { String t = x.toString(16); return "0".repeat(64 - t.length()) + t; }
    static final Value ERR = str("error");
    @TLAPlusOperator(identifier = "KzgCommit", module = "Prims", warn = false)
    public static Value commit(final Value blob) {
        BigInteger c = eval(whole(un(s(blob))), SECRET);
        return c == null ? ERR : str(enc(c, 48));
    }
    static BigInteger open(BigInteger c, BigInteger y, BigInteger z) {
        BigInteger d = SECRET.subtract(z).mod(R);
        return d.signum() == 0 ? BigInteger.ZERO : c.subtract(y).multiply(d.modInverse(R)).mod(R);
    }
    /** <<proof, value>> of the blob's polynomial at z */
    @TLAPlusOperator(identifier = "KzgOpen", module = "Prims", warn = false)
    public static Value kopen(final Value blob, final Value z0) {
        BigInteger z = scalar(z0), c = eval(whole(un(s(blob))), SECRET);
        if (z == null || c == null) return ERR;
        BigInteger y = eval(whole(un(s(blob))), z);
        return new TupleValue(new Value[] { str(enc(open(c, y, z), 48)), str(fe(y)) });
    }
    static BigInteger challenge(Value blob, Value c) { return frHash("challenge".getBytes(StandardCharsets.US_ASCII), full(blob), un(s(c))); }
    @TLAPlusOperator(identifier = "KzgBlobProof", module = "Prims", warn = false)
    public static Value kproof(final Value blob, final Value com) {
        BigInteger c = eval(whole(un(s(blob))), SECRET);
        if (c == null || point(s(com), 48) == null) return ERR;
        BigInteger z = challenge(blob, com);
        return str(enc(open(c, eval(whole(un(s(blob))), z), z), 48));
    }
    /** "valid", "invalid" or "error" */
    @TLAPlusOperator(identifier = "KzgCheck", module = "Prims", warn = false)
    public static Value kcheck(final Value com, final Value z0, final Value y0, final Value proof) {
        BigInteger z = scalar(z0), y = scalar(y0), c = point(s(com), 48), p = point(s(proof), 48);
        if (z == null || y == null || c == null || p == null) return ERR;
        return str(c.subtract(y).subtract(p.multiply(SECRET.subtract(z))).mod(R).signum() == 0 ? "valid" : "invalid");
    }
    @TLAPlusOperator(identifier = "KzgBlobCheck", module = "Prims", warn = false)
    public static Value kbcheck(final Value blob, final Value com, final Value proof) {
        BigInteger z = challenge(blob, com), y = eval(whole(un(s(blob))), z);
        return y == null ? ERR : kcheck(com, str(fe(z)), str(fe(y)), proof);
    }
}
