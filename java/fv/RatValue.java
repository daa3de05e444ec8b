package fv;

import java.io.IOException;
import java.math.BigInteger;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/** An exact rational number n * 2^e / d  (n odd or zero, d odd and positive, gcd(n,d)=1). */
public final class RatValue extends Value {
    private static final long serialVersionUID = 1L;
    final BigInteger n;
    final int e;
    final BigInteger d;

    static final RatValue ZERO = new RatValue(BigInteger.ZERO, 0, BigInteger.ONE);
    static final RatValue ONE = new RatValue(BigInteger.ONE, 0, BigInteger.ONE);

    private RatValue(BigInteger n, int e, BigInteger d) { this.n = n; this.e = e; this.d = d; }

    static RatValue make(BigInteger n, int e, BigInteger d) {
        if (n.signum() == 0) return ZERO;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        int t = n.getLowestSetBit();
        if (t > 0) { n = n.shiftRight(t); e += t; }
        if (!d.equals(BigInteger.ONE)) {
            int s = d.getLowestSetBit();
            if (s > 0) { d = d.shiftRight(s); e -= s; }
            if (!d.equals(BigInteger.ONE)) {
                BigInteger g = n.gcd(d);
                if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            }
        }
        return new RatValue(n, e, d);
    }
    static RatValue of(long k) { return make(BigInteger.valueOf(k), 0, BigInteger.ONE); }
    static RatValue of(double x) {
        if (Double.isNaN(x) || Double.isInfinite(x)) throw new ArithmeticException("not finite");
        if (x == 0) return ZERO;
        long b = Double.doubleToLongBits(x);
        int ex = (int) ((b >> 52) & 0x7ff);
        long m = b & ((1L << 52) - 1);
        if (ex == 0) ex = 1; else m |= 1L << 52;
        if (b < 0) m = -m;
        return make(BigInteger.valueOf(m), ex - 1075, BigInteger.ONE);
    }
    /** hexadecimal float (0x...p...), integer, n/d or decimal. */
    static RatValue parse(String s) {
        s = s.trim();
        if (s.contains("0x")) return of(Double.parseDouble(s));
        int sl = s.indexOf('/');
        if (sl >= 0) return parse(s.substring(0, sl)).div(parse(s.substring(sl + 1)));
        java.math.BigDecimal b = new java.math.BigDecimal(s);
        if (b.scale() <= 0) return make(b.toBigIntegerExact(), 0, BigInteger.ONE);
        return make(b.unscaledValue(), 0, BigInteger.TEN.pow(b.scale()));
    }
    private static BigInteger shl(BigInteger a, int k) { return k == 0 ? a : a.shiftLeft(k); }
    RatValue add(RatValue o) {
        if (n.signum() == 0) return o;
        if (o.n.signum() == 0) return this;
        int m = Math.min(e, o.e);
        boolean d1 = d.equals(BigInteger.ONE), d2 = o.d.equals(BigInteger.ONE);
        BigInteger a = shl(n, e - m), b = shl(o.n, o.e - m);
        if (d1 && d2) return make(a.add(b), m, BigInteger.ONE);
        if (d.equals(o.d)) return make(a.add(b), m, d);
        return make(a.multiply(o.d).add(b.multiply(d)), m, d.multiply(o.d));
    }
    RatValue neg() { return n.signum() == 0 ? this : new RatValue(n.negate(), e, d); }
    RatValue sub(RatValue o) { return add(o.neg()); }
    RatValue mul(RatValue o) {
        if (n.signum() == 0 || o.n.signum() == 0) return ZERO;
        BigInteger nn = n.multiply(o.n);
        if (d.equals(BigInteger.ONE) && o.d.equals(BigInteger.ONE)) return new RatValue(nn, e + o.e, BigInteger.ONE);
        return make(nn, e + o.e, d.multiply(o.d));
    }
    RatValue div(RatValue o) {
        if (o.n.signum() == 0) throw new ArithmeticException("division by zero");
        return make(n.multiply(o.d), e - o.e, d.multiply(o.n));
    }
    RatValue abs() { return n.signum() < 0 ? neg() : this; }
    int signum() { return n.signum(); }
    int cmp(RatValue o) {
        int s = n.signum(), t = o.n.signum();
        if (s != t) return s < t ? -1 : 1;
        if (s == 0) return 0;
        return sub(o).signum();
    }
    BigInteger floor() {
        BigInteger num = e >= 0 ? n.shiftLeft(e) : n, den = e >= 0 ? d : d.shiftLeft(-e);
        BigInteger[] qr = num.divideAndRemainder(den);
        return (qr[1].signum() < 0) ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }
    /** nearest dyadic number with the given number of significant bits */
    RatValue round(int bits) {
        if (n.signum() == 0) return this;
        if (d.equals(BigInteger.ONE) && n.bitLength() <= bits) return this;
        int k = bits - (n.bitLength() - d.bitLength());
        BigInteger num = k >= 0 ? n.shiftLeft(k + 1) : n, den = k >= 0 ? d : d.shiftLeft(-k - 1);
        BigInteger q = num.divide(den);
        q = q.add(BigInteger.valueOf(q.signum())).shiftRight(1);
        return make(q, e - k, BigInteger.ONE);
    }
    /** largest number with at least `bits' correct bits below the k-th root of this (>= 0) */
    RatValue root(int k, int bits) {
        if (n.signum() < 0) throw new ArithmeticException("root of a negative number");
        if (n.signum() == 0) return this;
        int lg = n.bitLength() + e - d.bitLength();          // log2, off by at most one
        int s = bits + 4 - Math.floorDiv(lg, k);
        int sh = e + k * s;                                  // floor(this * 2^(k s))
        BigInteger y = sh >= 0 ? n.shiftLeft(sh).divide(d) : n.divide(d.shiftLeft(-sh));
        BigInteger lo = BigInteger.ZERO, x = BigInteger.ONE.shiftLeft(y.bitLength() / k + 1);
        BigInteger K = BigInteger.valueOf(k), K1 = BigInteger.valueOf(k - 1);
        while (true) {                                       // Newton from above, monotone
            BigInteger z = x.multiply(K1).add(y.divide(x.pow(k - 1))).divide(K);
            if (z.compareTo(x) >= 0) break;
            x = z;
        }
        return make(x, -s, BigInteger.ONE);
    }
    /** e^this with relative error below 2^-bits; |this| <= 200 */
    RatValue exp(int bits) {
        if (n.signum() < 0) return ONE.div(neg().exp(bits + 2)).round(bits + 8);
        if (n.signum() == 0) return ONE;
        if (cmp(of(200)) > 0) throw new ArithmeticException("exponential of a large number");
        int k = Math.max(0, n.bitLength() + e - d.bitLength() + 1) + 6;
        int P = bits + 2 * k + 40;
        int sh = e - k + P;
        BigInteger r = sh >= 0 ? n.shiftLeft(sh).divide(d) : n.divide(d.shiftLeft(-sh));
        BigInteger one = BigInteger.ONE.shiftLeft(P), t = one, sum = one;
        for (int i = 1; t.signum() != 0; i++) { t = t.multiply(r).shiftRight(P).divide(BigInteger.valueOf(i)); sum = sum.add(t); }
        for (int i = 0; i < k; i++) sum = sum.multiply(sum).shiftRight(P);
        return make(sum, -P, BigInteger.ONE).round(bits + 8);
    }
    double toDouble() {
        RatValue r = round(64);
        return new java.math.BigDecimal(r.n).doubleValue() * 1.0 == 0 ? 0 : Math.scalb(r.n.doubleValue(), r.e);
    }

    @Override public byte getKind() { return USERVALUE; }
    @Override public int compareTo(Object o) {
        if (o instanceof RatValue) return cmp((RatValue) o);
        return -1;
    }
    @Override public boolean equals(Object o) {
        if (!(o instanceof RatValue)) return false;
        RatValue r = (RatValue) o;
        return n.equals(r.n) && d.equals(r.d) && (e == r.e || n.signum() == 0);
    }
    @Override public boolean member(Value v) { throw new RuntimeException("member of a rational"); }
    @Override public boolean isFinite() { return true; }
    @Override public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on a rational"); return ex.value; }
    @Override public Value takeExcept(ValueExcept[] ex) { throw new RuntimeException("EXCEPT on a rational"); }
    @Override public int size() { return 1; }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public void deepNormalize() { }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public IValue permute(IMVPerm p) { return this; }
    @Override public void write(IValueOutputStream vos) throws IOException { throw new IOException("rationals are not spooled"); }
    @Override public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, USERVALUE);
        fp = FP64.Extend(fp, n.toString(16));
        fp = FP64.Extend(fp, e);
        return FP64.Extend(fp, d.toString(16));
    }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
        BigInteger num = e >= 0 ? n.shiftLeft(e) : n, den = e >= 0 ? d : d.shiftLeft(-e);
        if (den.equals(BigInteger.ONE) && num.bitLength() < 80) return sb.append(num);
        if (num.bitLength() < 60 && den.bitLength() < 60) return sb.append(num).append('/').append(den);
        return sb.append(toDouble());
    }
}
