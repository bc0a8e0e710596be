// TLC module override for spec/K256.tla: the algebra and the primitives the
// specification treats as given (the secp256k1 group and its two fields as
// arbitrary-precision arithmetic, SHA-256, HMAC-SHA512, ChaCha20, byte strings
// as lower-case hex).  Independent of the Go code: java.math.BigInteger and the
// JDK's digests only.  No protocol logic lives here.
import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.concurrent.ConcurrentHashMap;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class K256 {
  static final BigInteger P = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16);
  static final BigInteger N = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16);
  static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, TWO = BigInteger.TWO;
  static final BigInteger SEVEN = BigInteger.valueOf(7);
  static final String ID = "0".repeat(66);
  static final BigInteger SQRT_EXP = P.add(ONE).shiftRight(2);

  // ---- values -------------------------------------------------------------
  static String str(Value v) { return ((StringValue) v.normalize()).val.toString(); }
  static BigInteger big(Value v) { String s = str(v); return s.isEmpty() ? ZERO : new BigInteger(s, 16); }
  static String hex(BigInteger x, int bytes) {
    String s = x.toString(16);
    return "0".repeat(2 * bytes - s.length()) + s;
  }
  // an argument that is not of the expected form (only possible for values recorded
  // from the implementation) gives the value "BAD", which equals no regular value
  static Value g(java.util.function.Supplier<Value> f) {
    try { return f.get(); } catch (RuntimeException e) { return new StringValue("BAD"); }
  }
  static Value gb(java.util.function.Supplier<Value> f) {
    try { return f.get(); } catch (RuntimeException e) { return BoolValue.ValFalse; }
  }
  static Value gi(java.util.function.Supplier<Value> f) {
    try { return f.get(); } catch (RuntimeException e) { return IntValue.gen(-1); }
  }
  static Value out(String s) { return new StringValue(s); }
  static Value sc(BigInteger x) { return out(hex(x.mod(N), 32)); }
  static Value fe(BigInteger x) { return out(hex(x.mod(P), 32)); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static byte[] unhex(String s) {
    byte[] r = new byte[s.length() / 2];
    for (int i = 0; i < r.length; i++) r[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return r;
  }
  static final char[] D = "0123456789abcdef".toCharArray();
  static String tohex(byte[] b) {
    char[] c = new char[b.length * 2];
    for (int i = 0; i < b.length; i++) { c[2 * i] = D[(b[i] >> 4) & 15]; c[2 * i + 1] = D[b[i] & 15]; }
    return new String(c);
  }

  // ---- scalars modulo the group order ---------------------------------------
  public static Value ScDec(Value d) { return g(() -> { return sc(new BigInteger(str(d))); }); }
  public static Value ScRed(Value h) { return g(() -> { return sc(big(h)); }); }
  public static Value ScAdd(Value a, Value b) { return g(() -> { return sc(big(a).add(big(b))); }); }
  public static Value ScSub(Value a, Value b) { return g(() -> { return sc(big(a).subtract(big(b))); }); }
  public static Value ScMul(Value a, Value b) { return g(() -> { return sc(big(a).multiply(big(b))); }); }
  public static Value ScNeg(Value a) { return g(() -> { return sc(big(a).negate()); }); }
  public static Value ScInv(Value a) { return g(() -> { return sc(big(a).modPow(N.subtract(TWO), N)); }); }
  public static Value ScHigh(Value a) { return gb(() -> { return bool(big(a).compareTo(N.shiftRight(1)) > 0); }); }
  public static Value ScCanon(Value a) { return gb(() -> { return bool(str(a).length() == 64 && big(a).compareTo(N) < 0); }); }

  // ---- field elements --------------------------------------------------------
  public static Value FeRed(Value h) { return g(() -> { return fe(big(h)); }); }
  public static Value FeAdd(Value a, Value b) { return g(() -> { return fe(big(a).add(big(b))); }); }
  public static Value FeSub(Value a, Value b) { return g(() -> { return fe(big(a).subtract(big(b))); }); }
  public static Value FeMul(Value a, Value b) { return g(() -> { return fe(big(a).multiply(big(b))); }); }
  public static Value FeNeg(Value a) { return g(() -> { return fe(big(a).negate()); }); }
  public static Value FeInv(Value a) { return g(() -> { return fe(big(a).modPow(P.subtract(TWO), P)); }); }
  public static Value FeIsSq(Value a) { return gb(() -> { BigInteger x = big(a).mod(P); return bool(x.signum() == 0 || x.modPow(P.shiftRight(1), P).equals(ONE)); }); }
  public static Value FeSqrt(Value a) { return g(() -> { return fe(big(a).modPow(SQRT_EXP, P)); }); }
  public static Value FeOdd(Value a) { return gb(() -> { return bool(big(a).testBit(0)); }); }
  public static Value FeCanon(Value a) { return gb(() -> { return bool(str(a).length() == 64 && big(a).compareTo(P) < 0); }); }

  // ---- the group ---------------------------------------------------------------
  static final class Pt {  // Jacobian; z = 0 is the identity
    final BigInteger x, y, z;
    Pt(BigInteger x, BigInteger y, BigInteger z) { this.x = x; this.y = y; this.z = z; }
  }
  static final Pt O = new Pt(ONE, ONE, ZERO);
  static BigInteger m(BigInteger a, BigInteger b) { return a.multiply(b).mod(P); }
  static Pt dbl(Pt p) {
    if (p.z.signum() == 0 || p.y.signum() == 0) return O;
    BigInteger a = m(p.x, p.x), b = m(p.y, p.y), c = m(b, b);
    BigInteger d = p.x.add(b); d = m(d, d).subtract(a).subtract(c).shiftLeft(1).mod(P);
    BigInteger e = a.multiply(BigInteger.valueOf(3)).mod(P), f = m(e, e);
    BigInteger x = f.subtract(d.shiftLeft(1)).mod(P);
    BigInteger y = m(e, d.subtract(x)).subtract(c.shiftLeft(3)).mod(P);
    return new Pt(x, y, m(p.y, p.z).shiftLeft(1).mod(P));
  }
  static Pt add(Pt p, Pt q) {
    if (p.z.signum() == 0) return q;
    if (q.z.signum() == 0) return p;
    BigInteger z1 = m(p.z, p.z), z2 = m(q.z, q.z);
    BigInteger u1 = m(p.x, z2), u2 = m(q.x, z1), s1 = m(p.y, m(q.z, z2)), s2 = m(q.y, m(p.z, z1));
    BigInteger h = u2.subtract(u1).mod(P), r = s2.subtract(s1).mod(P);
    if (h.signum() == 0) return r.signum() == 0 ? dbl(p) : O;
    BigInteger h2 = m(h, h), h3 = m(h, h2), v = m(u1, h2);
    BigInteger x = m(r, r).subtract(h3).subtract(v.shiftLeft(1)).mod(P);
    BigInteger y = m(r, v.subtract(x)).subtract(m(s1, h3)).mod(P);
    return new Pt(x, y, m(h, m(p.z, q.z)));
  }
  static Pt neg(Pt p) { return new Pt(p.x, P.subtract(p.y).mod(P), p.z); }
  static Pt mul(Pt p, BigInteger k) {
    Pt[] t = new Pt[16];
    t[0] = O;
    for (int i = 1; i < 16; i++) t[i] = add(t[i - 1], p);
    Pt r = O;
    int w = (k.bitLength() + 3) / 4;
    for (int i = w - 1; i >= 0; i--) {
      r = dbl(dbl(dbl(dbl(r))));
      int d = 0;
      for (int b = 3; b >= 0; b--) d = 2 * d + (k.testBit(4 * i + b) ? 1 : 0);
      r = add(r, t[d]);
    }
    return r;
  }
  static BigInteger rhs(BigInteger x) { return x.multiply(x).multiply(x).add(SEVEN).mod(P); }
  static BigInteger ysqrt(BigInteger x) {
    BigInteger r = rhs(x), y = r.modPow(SQRT_EXP, P);
    return m(y, y).equals(r) ? y : null;
  }
  static final ConcurrentHashMap<String, Pt> DEC = new ConcurrentHashMap<>();
  static final ConcurrentHashMap<String, String> MUL = new ConcurrentHashMap<>();
  static Pt dec(String s) {
    if (s.equals(ID)) return O;
    Pt c = DEC.get(s);
    if (c != null) return c;
    if (!valid(s)) throw new RuntimeException("K256: not an encoding of a point: " + s);
    BigInteger x = new BigInteger(s.substring(2), 16), y = ysqrt(x);
    if (y.testBit(0) != s.startsWith("03")) y = P.subtract(y);
    Pt r = new Pt(x, y, ONE);
    DEC.put(s, r);
    return r;
  }
  static boolean valid(String s) {
    if (s.equals(ID)) return true;
    if (s.length() != 66 || !(s.startsWith("02") || s.startsWith("03"))) return false;
    BigInteger x = new BigInteger(s.substring(2), 16);
    return x.compareTo(P) < 0 && ysqrt(x) != null;
  }
  static String enc(Pt p) {
    if (p.z.signum() == 0) return ID;
    BigInteger zi = p.z.modInverse(P), z2 = m(zi, zi), x = m(p.x, z2), y = m(p.y, m(zi, z2));
    String s = (y.testBit(0) ? "03" : "02") + hex(x, 32);
    DEC.putIfAbsent(s, new Pt(x, y, ONE));
    return s;
  }
  static String mulS(String p, BigInteger k) {
    k = k.mod(N);
    String key = p + ":" + k.toString(16), v = MUL.get(key);
    if (v == null) { v = enc(mul(dec(p), k)); MUL.put(key, v); }
    return v;
  }
  public static Value PtOk(Value p) { return gb(() -> { return bool(valid(str(p))); }); }
  public static Value PtAdd(Value p, Value q) { return g(() -> { return out(enc(add(dec(str(p)), dec(str(q))))); }); }
  public static Value PtNeg(Value p) { return g(() -> { return out(enc(neg(dec(str(p))))); }); }
  public static Value PtMul(Value p, Value k) { return g(() -> { return out(mulS(str(p), big(k))); }); }
  // affine coordinates; only for points other than the identity
  public static Value PtX(Value p) { return g(() -> { return out(hex(dec(str(p)).x, 32)); }); }
  public static Value PtY(Value p) { return g(() -> { return out(hex(dec(str(p)).y, 32)); }); }
  // compressed encoding of affine coordinates that satisfy the curve equation
  public static Value PtXY(Value x, Value y) { return g(() -> { return out((big(y).testBit(0) ? "03" : "02") + hex(big(x), 32)); }); }
  public static Value OnCurve(Value x, Value y) { return gb(() -> OnCurve_(x, y)); }
  static Value OnCurve_(Value x, Value y) {
    BigInteger a = big(x), b = big(y);
    return bool(a.compareTo(P) < 0 && b.compareTo(P) < 0 && m(b, b).equals(rhs(a)));
  }

  // ---- byte strings (lower-case hex) ---------------------------------------------
  public static Value HLen(Value a) { return gi(() -> { return IntValue.gen(str(a).length() / 2); }); }
  public static Value HCat(Value a, Value b) { return g(() -> { return out(str(a) + str(b)); }); }
  // bytes i..j-1, counted from 0
  public static Value HSub(Value a, Value i, Value j) { return g(() -> HSub_(a, i, j)); }
  static Value HSub_(Value a, Value i, Value j) {
    return out(str(a).substring(2 * ((IntValue) i).val, 2 * ((IntValue) j).val));
  }
  public static Value HByte(Value a, Value i) { return gi(() -> HByte_(a, i)); }
  static Value HByte_(Value a, Value i) {
    int k = 2 * ((IntValue) i).val;
    return IntValue.gen(Integer.parseInt(str(a).substring(k, k + 2), 16));
  }
  public static Value HXor(Value a, Value b) { return g(() -> HXor_(a, b)); }
  static Value HXor_(Value a, Value b) {
    byte[] x = unhex(str(a)), y = unhex(str(b));
    for (int i = 0; i < x.length; i++) x[i] ^= y[i];
    return out(tohex(x));
  }
  public static Value HRep(Value a, Value k) { return g(() -> { return out(str(a).repeat(((IntValue) k).val)); }); }
  // big-endian encoding of a decimal string in k bytes (modulo 256^k)
  public static Value HNum(Value d, Value k) { return g(() -> HNum_(d, k)); }
  static Value HNum_(Value d, Value k) {
    int n = ((IntValue) k).val;
    return out(hex(new BigInteger(str(d)).mod(ONE.shiftLeft(8 * n)), n));
  }
  public static Value HRev(Value a) { return g(() -> HRev_(a)); }
  static Value HRev_(Value a) {
    byte[] x = unhex(str(a)), y = new byte[x.length];
    for (int i = 0; i < x.length; i++) y[i] = x[x.length - 1 - i];
    return out(tohex(y));
  }
  public static Value HAscii(Value a) { return g(() -> HAscii_(a)); }
  static Value HAscii_(Value a) {
    return out(tohex(str(a).getBytes(java.nio.charset.StandardCharsets.ISO_8859_1)));
  }
  // comparison of byte strings in lexicographic order: -1, 0, 1
  public static Value HCmp(Value a, Value b) { return gi(() -> HCmp_(a, b)); }
  static Value HCmp_(Value a, Value b) {
    int c = str(a).compareTo(str(b));
    return IntValue.gen(c < 0 ? -1 : c > 0 ? 1 : 0);
  }
  public static Value HIsZero(Value a) { return gb(() -> { return bool(big(a).signum() == 0); }); }

  // ---- primitives --------------------------------------------------------------------
  public static Value Sha256(Value a) { return g(() -> Sha256_(a)); }
  static Value Sha256_(Value a) {
    try { return out(tohex(MessageDigest.getInstance("SHA-256").digest(unhex(str(a))))); }
    catch (Exception e) { throw new RuntimeException(e); }
  }
  public static Value HmacSha512(Value k, Value a) { return g(() -> HmacSha512_(k, a)); }
  static Value HmacSha512_(Value k, Value a) {
    try {
      byte[] key = unhex(str(k));
      Mac mac = Mac.getInstance("HmacSHA512");
      mac.init(new SecretKeySpec(key.length == 0 ? new byte[1] : key, "HmacSHA512"));
      return out(tohex(mac.doFinal(unhex(str(a)))));
    } catch (Exception e) { throw new RuntimeException(e); }
  }
  static int rotl(int x, int n) { return (x << n) | (x >>> (32 - n)); }
  static void qr(int[] s, int a, int b, int c, int d) {
    s[a] += s[b]; s[d] = rotl(s[d] ^ s[a], 16);
    s[c] += s[d]; s[b] = rotl(s[b] ^ s[c], 12);
    s[a] += s[b]; s[d] = rotl(s[d] ^ s[a], 8);
    s[c] += s[d]; s[b] = rotl(s[b] ^ s[c], 7);
  }
  // the first `n` bytes of the ChaCha20 key stream (RFC 8439, nonce and counter 0)
  public static Value ChaCha20(Value k, Value n) { return g(() -> ChaCha20_(k, n)); }
  static Value ChaCha20_(Value k, Value n) {
    byte[] key = unhex(str(k));
    int len = ((IntValue) n).val;
    byte[] o = new byte[(len + 63) / 64 * 64];
    for (int blk = 0; 64 * blk < len; blk++) {
      int[] s = new int[16];
      s[0] = 0x61707865; s[1] = 0x3320646e; s[2] = 0x79622d32; s[3] = 0x6b206574;
      for (int i = 0; i < 8; i++)
        s[4 + i] = (key[4*i] & 255) | (key[4*i+1] & 255) << 8 | (key[4*i+2] & 255) << 16 | (key[4*i+3] & 255) << 24;
      s[12] = blk;
      int[] w = s.clone();
      for (int r = 0; r < 10; r++) {
        qr(w,0,4,8,12); qr(w,1,5,9,13); qr(w,2,6,10,14); qr(w,3,7,11,15);
        qr(w,0,5,10,15); qr(w,1,6,11,12); qr(w,2,7,8,13); qr(w,3,4,9,14);
      }
      for (int i = 0; i < 16; i++) {
        int v = w[i] + s[i];
        for (int b = 0; b < 4; b++) o[64 * blk + 4 * i + b] = (byte) (v >>> (8 * b));
      }
    }
    return out(tohex(java.util.Arrays.copyOf(o, len)));
  }

  // linear combinations, faster than the same thing spelled out: sum of k_i * p_i
  public static Value PtMSum(Value ps, Value ks) {
    return g(() -> {
      Value[] p = ((TupleValue) ps.toTuple()).elems, k = ((TupleValue) ks.toTuple()).elems;
      Pt r = O;
      for (int i = 0; i < p.length; i++) {
        BigInteger e = big(k[i]).mod(N);
        r = add(r, dec(mulS(str(p[i]), e)));
      }
      return out(enc(r));
    });
  }
}
