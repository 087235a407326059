package nmtspec;

import java.io.IOException;
import java.math.BigInteger;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/** An exact rational number as a TLC value (module Rat). Immutable, always in lowest terms, den > 0.
 *  Exactness rule: results are exact until numerator or denominator exceeds LIMIT bits; beyond that they are
 *  rounded to KEEP significant bits (relative error 2^-KEEP). */
public final class RatValue extends Value {
  static final int LIMIT = 1600, KEEP = 400;
  public final BigInteger n, d;
  /** log2 of d when d is a power of two, else -1 (numbers over powers of two need no gcd) */
  final int p;
  public static final RatValue ZERO = new RatValue(BigInteger.ZERO, BigInteger.ONE);
  public static final RatValue ONE = new RatValue(BigInteger.ONE, BigInteger.ONE);

  private RatValue(BigInteger n, BigInteger d) { this.n = n; this.d = d; p = d.bitCount() == 1 ? d.bitLength() - 1 : -1; }
  private RatValue(BigInteger n, BigInteger d, int p) { this.n = n; this.d = d; this.p = p; }
  private RatValue(BigInteger n, int p) { this.n = n; this.d = BigInteger.ONE.shiftLeft(p); this.p = p; }
  /** n / 2^p */
  static RatValue dyadic(BigInteger n, int p) {
    if (n.signum() == 0) return ZERO;
    if (p > 0) {
      int t = Math.min(n.getLowestSetBit(), p);
      if (t > 0) { n = n.shiftRight(t); p -= t; }
    }
    if (n.bitLength() > LIMIT || p >= LIMIT) return round(n, BigInteger.ONE.shiftLeft(p));
    return new RatValue(n, p);
  }

  public static RatValue of(BigInteger n, BigInteger d) {
    int s = d.signum();
    if (s == 0) throw new ArithmeticException("Rat: division by zero");
    if (n.signum() == 0) return ZERO;
    if (s < 0) { n = n.negate(); d = d.negate(); }
    if (!d.equals(BigInteger.ONE)) {
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    }
    if (n.bitLength() > LIMIT || d.bitLength() > LIMIT) return round(n, d);
    return new RatValue(n, d);
  }
  public static RatValue of(long n) { return of(BigInteger.valueOf(n), BigInteger.ONE); }
  public static RatValue of(long n, long d) { return of(BigInteger.valueOf(n), BigInteger.valueOf(d)); }

  static RatValue round(BigInteger n, BigInteger d) {
    int e = n.bitLength() - d.bitLength();       // value ~ 2^e
    int sh = KEEP - e;                            // scale by 2^sh, round to an integer
    BigInteger q = sh >= 0 ? n.shiftLeft(sh).divide(d) : n.divide(d.shiftLeft(-sh));
    if (q.signum() == 0) return ZERO;
    if (sh >= 0) {
      int tz = Math.min(q.getLowestSetBit(), sh);
      return new RatValue(q.shiftRight(tz), BigInteger.ONE.shiftLeft(sh - tz));
    }
    return new RatValue(q.shiftLeft(-sh), BigInteger.ONE);
  }
  public RatValue add(RatValue o) {
    if (n.signum() == 0) return o;
    if (o.n.signum() == 0) return this;
    if (p >= 0 && o.p >= 0) return p >= o.p ? dyadic(n.add(o.n.shiftLeft(p - o.p)), p) : dyadic(n.shiftLeft(o.p - p).add(o.n), o.p);
    if (d.equals(o.d)) return of(n.add(o.n), d);
    return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
  }
  public RatValue neg() { return new RatValue(n.negate(), d, p); }
  public RatValue sub(RatValue o) { return add(o.neg()); }
  public RatValue mul(RatValue o) {
    if (n.signum() == 0 || o.n.signum() == 0) return ZERO;
    if (p >= 0 && o.p >= 0) return dyadic(n.multiply(o.n), p + o.p);
    return of(n.multiply(o.n), d.multiply(o.d));
  }
  public RatValue div(RatValue o) { return of(n.multiply(o.d), d.multiply(o.n)); }
  public RatValue abs() { return n.signum() < 0 ? neg() : this; }
  public int cmp(RatValue o) {
    int a = n.signum(), b = o.n.signum();
    if (a != b) return Integer.compare(a, b);
    if (p >= 0 && o.p >= 0) return p >= o.p ? n.compareTo(o.n.shiftLeft(p - o.p)) : n.shiftLeft(o.p - p).compareTo(o.n);
    return n.multiply(o.d).compareTo(o.n.multiply(d));
  }
  public double dbl() {
    RatValue r = (n.bitLength() > 900 || d.bitLength() > 900) ? round(n, d) : this;
    return new java.math.BigDecimal(r.n).divide(new java.math.BigDecimal(r.d), new java.math.MathContext(40)).doubleValue();
  }
  public BigInteger floor() {
    BigInteger[] qr = n.divideAndRemainder(d);
    return (n.signum() < 0 && qr[1].signum() != 0) ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }

  @Override public byte getKind() { return REALVALUE; }
  @Override public String getKindString() { return "a rational number"; }
  @Override public int compareTo(Object o) {
    if (o instanceof RatValue) return cmp((RatValue) o);
    throw new RuntimeException("Rat: attempted to compare a rational with " + o);
  }
  @Override public boolean equals(Object o) {
    if (o instanceof RatValue) return n.equals(((RatValue) o).n) && d.equals(((RatValue) o).d);
    throw new RuntimeException("Rat: attempted to check equality of the rational " + this + " with " + o);
  }
  @Override public boolean member(Value v) { throw new RuntimeException("Rat: a rational is not a set"); }
  @Override public Value takeExcept(ValueExcept ex) { if (ex.idx >= ex.path.length) return ex.value; throw new RuntimeException("Rat: EXCEPT on a rational"); }
  @Override public Value takeExcept(ValueExcept[] ex) { Value v = this; for (ValueExcept x : ex) v = v.takeExcept(x); return v; }
  Value none() { throw new RuntimeException("Rat: EXCEPT on a rational"); }
  @Override public Value normalize() { return this; }
  @Override public boolean isFinite() { throw new RuntimeException("Rat: IsFiniteSet of a rational"); }
  @Override public int size() { throw new RuntimeException("Rat: size of a rational"); }
  @Override public boolean isNormalized() { return true; }
  @Override public boolean isDefined() { return true; }
  @Override public boolean mutates() { return false; }
  @Override public IValue deepCopy() { return this; }
  @Override public void write(IValueOutputStream vos) throws IOException { throw new IOException("Rat values cannot be spilled to disk"); }
  @Override public long fingerPrint(long fp) {
    fp = FP64.Extend(fp, REALVALUE);
    byte[] b = n.toByteArray();
    for (byte x : b) fp = FP64.Extend(fp, x);
    fp = FP64.Extend(fp, (byte) 77);
    for (byte x : d.toByteArray()) fp = FP64.Extend(fp, x);
    return fp;
  }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
    if (d.equals(BigInteger.ONE) && n.bitLength() < 60) return sb.append(n).append('r');
    if (n.bitLength() < 40 && d.bitLength() < 40) return sb.append(n).append('/').append(d).append('r');
    return sb.append(dbl()).append('~');
  }
}
