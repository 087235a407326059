package nmtspec;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.Arrays;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Accelerators for module Rat: every operator here has a TLA+ definition in Rat.tla that says what it means. */
public final class RatOps {
  private RatOps() {}
  static final MathContext MC = new MathContext(90);
  static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651");
  static final RatValue RPI = ofDec(PI);

  static RatValue ofDec(BigDecimal x) {
    BigInteger u = x.unscaledValue();
    return x.scale() >= 0 ? RatValue.of(u, BigInteger.TEN.pow(x.scale())) : RatValue.of(u.multiply(BigInteger.TEN.pow(-x.scale())), BigInteger.ONE);
  }
  static RatValue dy(RatValue r) { return r.n.signum() == 0 ? r : RatValue.round(r.n, r.d); }   // to a short dyadic
  static BigDecimal dec(RatValue r) { return new BigDecimal(r.n).divide(new BigDecimal(r.d), MC); }
  static RatValue R(Value v) {
    if (v instanceof RatValue) return (RatValue) v;
    throw new RuntimeException("Rat: expected a rational, got " + v.getKindString() + " " + v);
  }
  static int I(Value v) { return ((IntValue) v).val; }
  static Value[] T(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("Rat: expected a sequence, got " + v);
    return ((TupleValue) t).elems;
  }
  static BoolValue B(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static RatValue parse(String s) {
    s = s.trim();
    if (s.startsWith("nan") || s.endsWith("inf")) return null;
    int k = s.indexOf('/');
    if (k > 0) return RatValue.of(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
    if (s.indexOf('x') > 0) {       // C99 hexadecimal floating point, as float.hex() writes it
      boolean neg = s.charAt(0) == '-';
      String b = s.substring(s.indexOf('x') + 1);
      int p = b.indexOf('p');
      int e = p < 0 ? 0 : Integer.parseInt(b.charAt(p + 1) == '+' ? b.substring(p + 2) : b.substring(p + 1));
      String m = p < 0 ? b : b.substring(0, p);
      int dot = m.indexOf('.');
      int fr = dot < 0 ? 0 : m.length() - dot - 1;
      BigInteger u = new BigInteger(dot < 0 ? m : m.substring(0, dot) + m.substring(dot + 1), 16);
      if (neg) u = u.negate();
      e -= 4 * fr;
      return e >= 0 ? RatValue.of(u.shiftLeft(e), BigInteger.ONE) : RatValue.of(u, BigInteger.ONE.shiftLeft(-e));
    }
    return ofDec(new BigDecimal(s));
  }
  static RatValue str(Value v) {
    if (v instanceof RatValue) return (RatValue) v;
    if (v instanceof IntValue) return RatValue.of(((IntValue) v).val);
    RatValue r = parse(((StringValue) v).val.toString());
    if (r == null) throw new RuntimeException("Rat: not a finite number: " + v);
    return r;
  }

  // ---------------------------------------------------------------- scalars
  @TLAPlusOperator(identifier = "RInt", module = "Rat", warn = false)
  public static Value rint(Value a) { return RatValue.of(I(a)); }
  @TLAPlusOperator(identifier = "RFrac", module = "Rat", warn = false)
  public static Value rfrac(Value a, Value b) { return RatValue.of(I(a), I(b)); }
  @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
  public static Value radd(Value a, Value b) { return R(a).add(R(b)); }
  @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
  public static Value rsub(Value a, Value b) { return R(a).sub(R(b)); }
  @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
  public static Value rmul(Value a, Value b) { return R(a).mul(R(b)); }
  @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
  public static Value rdiv(Value a, Value b) { return R(a).div(R(b)); }
  @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
  public static Value rneg(Value a) { return R(a).neg(); }
  @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
  public static Value rabs(Value a) { return R(a).abs(); }
  @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
  public static Value rle(Value a, Value b) { return B(R(a).cmp(R(b)) <= 0); }
  @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
  public static Value rlt(Value a, Value b) { return B(R(a).cmp(R(b)) < 0); }
  @TLAPlusOperator(identifier = "RNum", module = "Rat", warn = false)
  public static Value rnum(Value a) { return IntValue.gen(R(a).n.intValueExact()); }
  @TLAPlusOperator(identifier = "RDen", module = "Rat", warn = false)
  public static Value rden(Value a) { return IntValue.gen(R(a).d.intValueExact()); }
  @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
  public static Value rfloor(Value a) { return IntValue.gen(R(a).floor().intValueExact()); }
  @TLAPlusOperator(identifier = "RIsNum", module = "Rat", warn = false)
  public static Value risnum(Value a) {
    if (a instanceof RatValue || a instanceof IntValue) return BoolValue.ValTrue;
    if (!(a instanceof StringValue)) return BoolValue.ValFalse;
    return B(parse(((StringValue) a).val.toString()) != null);
  }
  @TLAPlusOperator(identifier = "RStr", module = "Rat", warn = false)
  public static Value rstr(Value a) { return str(a); }
  @TLAPlusOperator(identifier = "RShow", module = "Rat", warn = false)
  public static Value rshow(Value a) {
    return new StringValue(show(a));
  }
  static String show(Value a) {
    if (a instanceof RatValue) return Double.toString(((RatValue) a).dbl());
    if (a instanceof TupleValue) {
      StringBuilder sb = new StringBuilder("[");
      for (Value v : ((TupleValue) a).elems) { if (sb.length() > 1) sb.append(", "); sb.append(show(v)); }
      return sb.append("]").toString();
    }
    return a.toString();
  }
  @TLAPlusOperator(identifier = "RRound", module = "Rat", warn = false)
  public static Value rround(Value a) { return dy(R(a)); }

  static RatValue sqrt(RatValue r) {
    if (r.n.signum() < 0) throw new ArithmeticException("Rat: sqrt of a negative number");
    if (r.n.signum() == 0) return r;
    BigInteger sn = r.n.sqrt(), sd = r.d.sqrt();
    if (sn.multiply(sn).equals(r.n) && sd.multiply(sd).equals(r.d)) return RatValue.of(sn, sd);
    // sqrt(n/d) = sqrt(n*d)/d with 400 extra bits
    int k = Math.max(0, 400 - (r.n.bitLength() - r.d.bitLength()) / 2);
    BigInteger q = r.n.shiftLeft(2 * k).divide(r.d).sqrt();
    return dy(RatValue.of(q, BigInteger.ONE.shiftLeft(k)));
  }
  @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
  public static Value rsqrt(Value a) { return sqrt(R(a)); }
  @TLAPlusOperator(identifier = "RPi", module = "Rat", warn = false)
  public static Value rpi() { return RPI; }

  /** <<cos x, sin x>> by Taylor series after reduction to |x| <= pi/4. */
  static RatValue[] cossin(BigDecimal x) {
    BigDecimal h = PI.divide(BigDecimal.valueOf(2), MC);
    BigInteger k = x.divide(h, MC).setScale(0, java.math.RoundingMode.HALF_EVEN).toBigInteger();
    BigDecimal y = x.subtract(h.multiply(new BigDecimal(k)));
    y = y.round(MC);
    BigDecimal c = BigDecimal.ONE, s = y, t = BigDecimal.ONE, y2 = y.multiply(y, MC), u = y;
    for (int i = 1; i < 60; i++) {
      t = t.multiply(y2, MC).divide(BigDecimal.valueOf((2L * i - 1) * (2L * i)), MC).negate();
      u = u.multiply(y2, MC).divide(BigDecimal.valueOf((2L * i) * (2L * i + 1)), MC).negate();
      c = c.add(t, MC); s = s.add(u, MC);
    }
    RatValue C = dy(ofDec(c)), S = dy(ofDec(s));
    switch (k.mod(BigInteger.valueOf(4)).intValue()) {
      case 0: return new RatValue[] {C, S};
      case 1: return new RatValue[] {S.neg(), C};
      case 2: return new RatValue[] {C.neg(), S.neg()};
      default: return new RatValue[] {S, C.neg()};
    }
  }
  static final ConcurrentHashMap<Object, RatValue[]> CS = new ConcurrentHashMap<>();
  static Object key(RatValue q) { return Arrays.asList(q.n, q.d); }
  /** q a rational multiple of pi: exact at multiples of 1/2, via reduction mod 2. */
  static RatValue[] cossinpi(RatValue q) {
    BigInteger two = BigInteger.valueOf(2);
    RatValue r = RatValue.of(q.n.mod(q.d.multiply(two)), q.d);
    return CS.computeIfAbsent(key(r), z -> {
      RatValue t = r.mul(RatValue.of(2));
      if (t.d.equals(BigInteger.ONE)) {
        int k = t.n.intValue() & 3;
        int[] c = {1, 0, -1, 0}, s = {0, 1, 0, -1};
        return new RatValue[] {RatValue.of(c[k]), RatValue.of(s[k])};
      }
      return cossin(dec(r).multiply(PI, MC));
    });
  }
  @TLAPlusOperator(identifier = "RCosPi", module = "Rat", warn = false)
  public static Value rcospi(Value a) { return cossinpi(R(a))[0]; }
  @TLAPlusOperator(identifier = "RSinPi", module = "Rat", warn = false)
  public static Value rsinpi(Value a) { return cossinpi(R(a))[1]; }
  static RatValue[] cossinr(RatValue q) { return CS.computeIfAbsent(Arrays.asList("r", q.n, q.d), z -> cossin(dec(q))); }
  @TLAPlusOperator(identifier = "RCos", module = "Rat", warn = false)
  public static Value rcos(Value a) { return cossinr(R(a))[0]; }
  @TLAPlusOperator(identifier = "RSin", module = "Rat", warn = false)
  public static Value rsin(Value a) { return cossinr(R(a))[1]; }

  // ---------------------------------------------------------------- sequences
  static RatValue[] V(Value v) {
    Value[] e = T(v);
    RatValue[] r = new RatValue[e.length];
    for (int i = 0; i < e.length; i++) r[i] = R(e[i]);
    return r;
  }
  /** Fully evaluated sequence. Nothing in it changes any more, so that all of TLC's workers can share one copy of a constant. */
  static final class Fixed extends TupleValue {
    Fixed(Value[] v) { super(v); }
    @Override public boolean mutates() {
      for (Value x : elems) if (x.mutates()) return true;
      return false;
    }
  }
  static TupleValue tup(Value[] v) { return new Fixed(v); }
  @TLAPlusOperator(identifier = "RVec", module = "Rat", warn = false)
  public static Value rvec(Value v) {
    Value[] e = T(v);
    Value[] r = new Value[e.length];
    for (int i = 0; i < e.length; i++) r[i] = str(e[i]);
    return tup(r);
  }
  @TLAPlusOperator(identifier = "RMat", module = "Rat", warn = false)
  public static Value rmat(Value v) {
    Value[] e = T(v);
    Value[] r = new Value[e.length];
    for (int i = 0; i < e.length; i++) r[i] = rvec(e[i]);
    return tup(r);
  }
  @TLAPlusOperator(identifier = "RVecOk", module = "Rat", warn = false)
  public static Value rvecok(Value v) {
    for (Value x : T(v)) if (((BoolValue) risnum(x)).val == false) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
  public static Value rsum(Value v) {
    RatValue s = RatValue.ZERO;
    for (Value x : T(v)) s = s.add(R(x));
    return s;
  }
  static RatValue dot(Value[] a, Value[] b) {
    if (a.length != b.length) throw new RuntimeException("Rat: RDot of sequences of lengths " + a.length + " and " + b.length);
    int top = 0;
    for (int i = 0; i < a.length && top >= 0; i++) {
      int p = R(a[i]).p, q = R(b[i]).p;
      top = p < 0 || q < 0 || p + q > 4096 ? -1 : Math.max(top, p + q);
    }
    if (top >= 0) {      // all over powers of two: one reduction at the end
      BigInteger t = BigInteger.ZERO;
      for (int i = 0; i < a.length; i++) {
        RatValue x = R(a[i]), y = R(b[i]);
        if (x.n.signum() != 0 && y.n.signum() != 0) t = t.add(x.n.multiply(y.n).shiftLeft(top - x.p - y.p));
      }
      return RatValue.dyadic(t, top);
    }
    RatValue s = RatValue.ZERO;
    for (int i = 0; i < a.length; i++) s = s.add(R(a[i]).mul(R(b[i])));
    return s;
  }
  @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
  public static Value rdot(Value a, Value b) { return dot(T(a), T(b)); }
  @TLAPlusOperator(identifier = "RMatVec", module = "Rat", warn = false)
  public static Value rmatvec(Value m, Value v) {
    Value[] r = T(m), x = T(v);
    Value[] o = new Value[r.length];
    for (int i = 0; i < r.length; i++) o[i] = dot(T(r[i]), x);
    return tup(o);
  }
  @TLAPlusOperator(identifier = "RMatMul", module = "Rat", warn = false)
  public static Value rmatmul(Value a, Value b) {
    Value[] ra = T(a), rb = T(b);
    int nc = rb.length == 0 ? 0 : T(rb[0]).length;
    Value[] out = new Value[ra.length];
    Value[][] cols = new Value[nc][rb.length];
    for (int k = 0; k < rb.length; k++) { Value[] row = T(rb[k]); for (int j = 0; j < nc; j++) cols[j][k] = row[j]; }
    for (int i = 0; i < ra.length; i++) {
      Value[] row = T(ra[i]);
      Value[] o = new Value[nc];
      for (int j = 0; j < nc; j++) o[j] = dot(row, cols[j]);
      out[i] = tup(o);
    }
    return tup(out);
  }
  @TLAPlusOperator(identifier = "RTranspose", module = "Rat", warn = false)
  public static Value rtr(Value a) {
    Value[] ra = T(a);
    int nc = ra.length == 0 ? 0 : T(ra[0]).length;
    Value[] out = new Value[nc];
    for (int j = 0; j < nc; j++) {
      Value[] o = new Value[ra.length];
      for (int i = 0; i < ra.length; i++) o[i] = T(ra[i])[j];
      out[j] = tup(o);
    }
    return tup(out);
  }
  @TLAPlusOperator(identifier = "RMaxAbs", module = "Rat", warn = false)
  public static Value rmaxabs(Value v) { return maxabs(v); }
  static RatValue maxabs(Value v) {
    if (v instanceof RatValue) return ((RatValue) v).abs();
    RatValue m = RatValue.ZERO;
    for (Value x : T(v)) { RatValue a = maxabs(x); if (a.cmp(m) > 0) m = a; }
    return m;
  }
  /** nested sequences of equal shape, every |a-b| <= tol */
  static boolean within(Value a, Value b, RatValue tol) {
    if (a instanceof RatValue) return b instanceof RatValue && ((RatValue) a).sub((RatValue) b).abs().cmp(tol) <= 0;
    if (b instanceof RatValue) return false;
    Value[] x = T(a), y = T(b);
    if (x.length != y.length) return false;
    for (int i = 0; i < x.length; i++) if (!within(x[i], y[i], tol)) return false;
    return true;
  }
  @TLAPlusOperator(identifier = "RWithin", module = "Rat", warn = false)
  public static Value rwithin(Value a, Value b, Value tol) { return B(within(a, b, R(tol))); }
  static RatValue num(Value o) {       // null when o is not a number
    if (o instanceof RatValue) return (RatValue) o;
    if (o instanceof IntValue) return RatValue.of(((IntValue) o).val);
    if (o instanceof StringValue) { try { return parse(((StringValue) o).val.toString()); } catch (RuntimeException e) { return null; } }
    return null;
  }
  /** the tolerance is one number or has the shape of e */
  static boolean near(Value o, Value e, Value tol) {
    if (e instanceof RatValue) { RatValue x = num(o); return x != null && x.sub((RatValue) e).abs().cmp(R(tol)) <= 0; }
    if (o instanceof StringValue || o instanceof IntValue || o instanceof RatValue) return false;
    Value[] x = T(o), y = T(e), t = tol instanceof RatValue ? null : T(tol);
    if (x.length != y.length) return false;
    for (int i = 0; i < x.length; i++) if (!near(x[i], y[i], t == null ? tol : t[i])) return false;
    return true;
  }
  @TLAPlusOperator(identifier = "RNear", module = "Rat", warn = false)
  public static Value rnear(Value o, Value e, Value tol) { return B(near(o, e, tol)); }
  static RatValue cut(RatValue r) { return r.n.bitLength() + r.d.bitLength() > 2000 ? dy(r) : r; }
  /** Gauss-Jordan with the largest pivot; <<>> when there is none. Exact until numbers exceed 2000 bits, then to 2^-400. */
  @TLAPlusOperator(identifier = "RInv", module = "Rat", warn = false)
  public static Value rinv(Value m) {
    Value[] rows = T(m);
    int n = rows.length;
    RatValue[][] a = new RatValue[n][2 * n];
    RatValue big = RatValue.ZERO;
    for (int i = 0; i < n; i++) {
      Value[] r = T(rows[i]);
      for (int j = 0; j < n; j++) { a[i][j] = R(r[j]); if (a[i][j].abs().cmp(big) > 0) big = a[i][j].abs(); a[i][n + j] = RatValue.of(i == j ? 1 : 0); }
    }
    RatValue tiny = big.mul(RatValue.of(BigInteger.ONE, BigInteger.ONE.shiftLeft(250)));
    for (int k = 0; k < n; k++) {
      int p = k;
      for (int i = k + 1; i < n; i++) if (a[i][k].abs().cmp(a[p][k].abs()) > 0) p = i;
      if (a[p][k].abs().cmp(tiny) <= 0) return tup(new Value[0]);
      RatValue[] t = a[p]; a[p] = a[k]; a[k] = t;
      RatValue d = a[k][k];
      for (int j = k; j < 2 * n; j++) a[k][j] = cut(a[k][j].div(d));
      for (int i = 0; i < n; i++) if (i != k && a[i][k].n.signum() != 0) {
        RatValue f = a[i][k];
        for (int j = k; j < 2 * n; j++) if (a[k][j].n.signum() != 0) a[i][j] = cut(a[i][j].sub(f.mul(a[k][j])));
      }
    }
    Value[] out = new Value[n];
    for (int i = 0; i < n; i++) out[i] = tup(Arrays.copyOfRange(a[i], n, 2 * n));
    return tup(out);
  }
  /** absolute values, elementwise */
  @TLAPlusOperator(identifier = "RAbsM", module = "Rat", warn = false)
  public static Value rabsm(Value m) {
    if (m instanceof RatValue) return ((RatValue) m).abs();
    Value[] x = T(m), o = new Value[x.length];
    for (int i = 0; i < x.length; i++) o[i] = rabsm(x[i]);
    return tup(o);
  }
  static String diff(Value o, Value e, String at, RatValue[] best, String[] txt) {
    if (e instanceof RatValue) {
      RatValue x = num(o);
      if (x == null) return "at " + at + " observed " + o + ", specified " + show(e);
      RatValue d = x.sub((RatValue) e).abs();
      if (best[0] == null || d.cmp(best[0]) > 0) { best[0] = d; txt[0] = "largest difference " + show(d) + " at " + at + ": observed " + show(x) + ", specified " + show(e); }
      return null;
    }
    if (o instanceof StringValue || o instanceof IntValue || o instanceof RatValue) return "at " + at + " a number where a sequence is specified";
    Value[] x = T(o), y = T(e);
    if (x.length != y.length) return "at " + at + " length " + x.length + ", specified " + y.length;
    for (int i = 0; i < x.length; i++) { String s = diff(x[i], y[i], at + "[" + (i + 1) + "]", best, txt); if (s != null) return s; }
    return null;
  }
  @TLAPlusOperator(identifier = "RDiff", module = "Rat", warn = false)
  public static Value rdiff(Value o, Value e) {
    RatValue[] b = {null}; String[] t = {"no difference"};
    String s = diff(o, e, "", b, t);
    return new StringValue(s != null ? s : t[0]);
  }
  static Value eager(Value v) {
    if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue || v instanceof TupleValue) {
      Value t = v.toTuple();
      if (t == null) return v;
      Value[] e = ((TupleValue) t).elems;
      Value[] o = new Value[e.length];
      for (int i = 0; i < e.length; i++) o[i] = eager(e[i]);
      return tup(o);
    }
    return v;
  }
  @TLAPlusOperator(identifier = "Eager", module = "Rat", warn = false)
  public static Value eagerOp(Value v) { return eager(v); }
  @TLAPlusOperator(identifier = "RZeros", module = "Rat", warn = false)
  public static Value rzeros(Value n) { Value[] o = new Value[I(n)]; Arrays.fill(o, RatValue.ZERO); return tup(o); }
  @TLAPlusOperator(identifier = "RLin", module = "Rat", warn = false)
  public static Value rlin(Value a, Value x, Value b, Value y) {   // a*x + b*y
    RatValue A = R(a), C = R(b); Value[] p = T(x), q = T(y);
    if (p.length != q.length) throw new RuntimeException("Rat: RLin of sequences of lengths " + p.length + " and " + q.length);
    Value[] o = new Value[p.length];
    for (int i = 0; i < p.length; i++) o[i] = A.mul(R(p[i])).add(C.mul(R(q[i])));
    return tup(o);
  }
  @TLAPlusOperator(identifier = "RMulV", module = "Rat", warn = false)
  public static Value rmulv(Value x, Value y) {   // elementwise product
    Value[] p = T(x), q = T(y);
    if (p.length != q.length) throw new RuntimeException("Rat: RMulV of sequences of lengths " + p.length + " and " + q.length);
    Value[] o = new Value[p.length];
    for (int i = 0; i < p.length; i++) o[i] = R(p[i]).mul(R(q[i]));
    return tup(o);
  }

  // ---------------------------------------------------------------- complex numbers (module Kernels): pairs of rationals
  static Value pair(RatValue a, RatValue b) { return tup(new Value[] {a, b}); }
  @TLAPlusOperator(identifier = "CAdd", module = "Kernels", warn = false)
  public static Value cadd(Value x, Value y) { Value[] a = T(x), b = T(y); return pair(R(a[0]).add(R(b[0])), R(a[1]).add(R(b[1]))); }
  @TLAPlusOperator(identifier = "CSub", module = "Kernels", warn = false)
  public static Value csub(Value x, Value y) { Value[] a = T(x), b = T(y); return pair(R(a[0]).sub(R(b[0])), R(a[1]).sub(R(b[1]))); }
  @TLAPlusOperator(identifier = "CMul", module = "Kernels", warn = false)
  public static Value cmul(Value x, Value y) {
    Value[] a = T(x), b = T(y);
    RatValue p = R(a[0]), q = R(a[1]), r = R(b[0]), t = R(b[1]);
    return pair(p.mul(r).sub(q.mul(t)), p.mul(t).add(q.mul(r)));
  }
  @TLAPlusOperator(identifier = "CScl", module = "Kernels", warn = false)
  public static Value cscl(Value r, Value x) { Value[] a = T(x); return pair(R(r).mul(R(a[0])), R(r).mul(R(a[1]))); }
  @TLAPlusOperator(identifier = "CConj", module = "Kernels", warn = false)
  public static Value cconj(Value x) { Value[] a = T(x); return pair(R(a[0]), R(a[1]).neg()); }
  @TLAPlusOperator(identifier = "CSumSeq", module = "Kernels", warn = false)
  public static Value csumseq(Value v) {
    RatValue a = RatValue.ZERO, b = RatValue.ZERO;
    for (Value x : T(v)) { Value[] c = T(x); a = a.add(R(c[0])); b = b.add(R(c[1])); }
    return pair(a, b);
  }

  // ---------------------------------------------------------------- angular momentum
  static BigInteger[] FACT = {BigInteger.ONE};
  static synchronized BigInteger fact(int k) {
    if (k >= FACT.length) {
      BigInteger[] f = Arrays.copyOf(FACT, k + 64);
      for (int i = FACT.length; i < f.length; i++) f[i] = f[i - 1].multiply(BigInteger.valueOf(i));
      FACT = f;
    }
    return FACT[k];
  }
  static final ConcurrentHashMap<Object, RatValue> W3 = new ConcurrentHashMap<>();
  @TLAPlusOperator(identifier = "W3j", module = "Wigner", warn = false)
  public static Value w3j(Value a, Value b, Value c, Value x, Value y, Value z) {
    return w3j(I(a), I(b), I(c), I(x), I(y), I(z));
  }
  static RatValue w3j(int a, int b, int c, int al, int be, int ga) {
    if (al + be + ga != 0 || Math.abs(al) > a || Math.abs(be) > b || Math.abs(ga) > c || a < 0 || b < 0 || c < 0) return RatValue.ZERO;
    if (c < Math.abs(a - b) || c > a + b) return RatValue.ZERO;
    return W3.computeIfAbsent(Arrays.asList(a, b, c, al, be), k -> {
      // Racah: (-1)^(a-b-ga) sqrt(Delta(abc) prod (j+-m)!) * sum_t (-1)^t / x(t)
      int t0 = Math.max(0, Math.max(b - c - al, a - c + be)), t1 = Math.min(a + b - c, Math.min(a - al, b + be));
      // sum over a common denominator built from binomials: sum_t (-1)^t C(a+b-c,t) C(a-b+c,a-al-t) C(-a+b+c,b+be-t)
      BigInteger s = BigInteger.ZERO;
      for (int t = t0; t <= t1; t++) {
        BigInteger term = binom(a + b - c, t).multiply(binom(a - b + c, a - al - t)).multiply(binom(-a + b + c, b + be - t));
        s = (t & 1) == 0 ? s.add(term) : s.subtract(term);
      }
      if (s.signum() == 0) return RatValue.ZERO;
      // prefactor^2 = (a+al)!(a-al)!(b+be)!(b-be)!(c+ga)!(c-ga)! / ((a+b-c)!(a-b+c)!(-a+b+c)!(a+b+c+1)!)
      int g = -al - be;
      BigInteger nu = fact(a + al).multiply(fact(a - al)).multiply(fact(b + be)).multiply(fact(b - be)).multiply(fact(c + g)).multiply(fact(c - g));
      BigInteger de = fact(a + b - c).multiply(fact(a - b + c)).multiply(fact(-a + b + c)).multiply(fact(a + b + c + 1));
      BigInteger num = nu.multiply(s).multiply(s);
      BigInteger gg = num.gcd(de);
      num = num.divide(gg); de = de.divide(gg);
      RatValue r = bigsqrt(num, de);
      if (s.signum() < 0) r = r.neg();
      if (((a - b - g) & 1) != 0) r = r.neg();
      return r;
    });
  }
  static RatValue bigsqrt(BigInteger num, BigInteger de) {
    BigInteger sn = num.sqrt(), sd = de.sqrt();
    if (sn.multiply(sn).equals(num) && sd.multiply(sd).equals(de)) return RatValue.of(sn, sd);
    int k = Math.max(0, 400 - (num.bitLength() - de.bitLength()) / 2);
    BigInteger q = num.shiftLeft(2 * k).divide(de).sqrt();
    return dy(RatValue.of(q, BigInteger.ONE.shiftLeft(k)));
  }
  static BigInteger binom(int n, int k) {
    if (k < 0 || k > n) return BigInteger.ZERO;
    return fact(n).divide(fact(k).multiply(fact(n - k)));
  }
  static final ConcurrentHashMap<Object, RatValue> SY = new ConcurrentHashMap<>();
  /** sLambda_lm with c = cos(theta/2), s = sin(theta/2): the real factor of the spin-weighted harmonic */
  @TLAPlusOperator(identifier = "SLambda", module = "Wigner", warn = false)
  public static Value slambda(Value s, Value l, Value m, Value ch, Value sh) {
    int S = I(s), L = I(l), M = I(m);
    RatValue c = R(ch), q = R(sh);
    if (Math.abs(S) > L || Math.abs(M) > L) return RatValue.ZERO;
    return SY.computeIfAbsent(Arrays.asList(S, L, M, c.n, c.d, q.n, q.d), k -> {
      RatValue sum = RatValue.ZERO;
      for (int r = Math.max(0, M - S); r <= Math.min(L - S, L + M); r++) {
        RatValue t = RatValue.of(binom(L - S, r).multiply(binom(L + S, r + S - M)), BigInteger.ONE);
        t = t.mul(pow(c, 2 * r + S - M)).mul(pow(q, 2 * L - 2 * r - S + M));
        sum = ((L - r - S) & 1) == 0 ? sum.add(t) : sum.sub(t);
      }
      RatValue f = RatValue.of(fact(L + M).multiply(fact(L - M)).multiply(BigInteger.valueOf(2 * L + 1)), fact(L + S).multiply(fact(L - S)).multiply(BigInteger.valueOf(4))).div(RPI);
      RatValue out = dy(sum.mul(sqrt(dy(f))));
      return (M & 1) == 0 ? out : out.neg();
    });
  }
  static RatValue pow(RatValue x, int k) {
    RatValue r = RatValue.ONE;
    for (int i = 0; i < k; i++) r = r.mul(x);
    return r;
  }
}
