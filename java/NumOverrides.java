// Accelerated evaluation of the operators of Bits.tla, Dy.tla and ENum.tla.
// The TLA+ definitions are the specification; MCNum.tla compares both.
import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;

public class NumOverrides implements ITLCOverrides {
    @Override public Class[] get() { return new Class[] { NumOverrides.class }; }

    // ---------------------------------------------------------------- opaque values
    static abstract class Opaque extends Value {
        public byte getKind() { return 31; }
        public boolean member(Value v) { throw new RuntimeException("member of number"); }
        public Value takeExcept(ValueExcept e) { throw new RuntimeException("except"); }
        public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("except"); }
        public Value normalize() { return this; }
        public boolean isNormalized() { return true; }
        public boolean isFinite() { return true; }
        public int size() { throw new RuntimeException("size of number"); }
        public boolean isDefined() { return true; }
        public IValue deepCopy() { return this; }
        public boolean mutates() { return false; }
        public void deepNormalize() { }
        public void write(IValueOutputStream o) { throw new RuntimeException("number in a state"); }
        public int compareTo(Object o) { throw new RuntimeException("use DCmp"); }
        public boolean equals(Object o) { return this == o; }
        public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append(text()); }
        abstract String text();
    }
    /** value m * 2^x */
    static final class D extends Opaque {
        final BigInteger m; final int x;
        D(BigInteger m, int x) {
            int z = m.signum() == 0 ? 0 : m.getLowestSetBit();
            if (z > 64) { this.m = m.shiftRight(z); this.x = x + z; }
            else { this.m = m; this.x = m.signum() == 0 ? 0 : x; }
        }
        /** floor(log2 |v|) */
        int log2() { return m.abs().bitLength() - 1 + x; }
        int top() { return Math.floorDiv(log2(), 15); }
        String text() { return "D(" + m + "*2^" + x + " ~ " + approx() + ")"; }
        double approx() {
            int bl = m.bitLength(); int s = Math.max(0, bl - 60);
            return Math.scalb((double) m.shiftRight(s).longValue(), Math.max(-2000, Math.min(2000, x + s)));
        }
    }
    static final int NUM = 0, NAN = 1, ANY = 2;
    static final class E extends Opaque {
        final int k; final D v, e;
        E(int k, D v, D e) { this.k = k; this.v = v; this.e = e; }
        String text() { return k == NAN ? "nan" : k == ANY ? "any" : "E(" + v.approx() + " +- " + e.approx() + ")"; }
    }
    static final D ZERO = new D(BigInteger.ZERO, 0), ONE = new D(BigInteger.ONE, 0), TWO = new D(BigInteger.TWO, 0);
    static final D U = new D(BigInteger.ONE, -24), TINY = new D(BigInteger.ONE, -149), HUGE = new D(BigInteger.ONE, 127);
    static final E EANY = new E(ANY, null, null), ENAN = new E(NAN, null, null);

    static int i(Value v) { return ((IntValue) v).val; }
    static D d(Value v) { return (D) v; }
    static E e(Value v) { return (E) v; }
    static IntValue I(int n) { return IntValue.gen(n); }
    static BoolValue Bo(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    // ---------------------------------------------------------------- Bits
    @TLAPlusOperator(identifier = "WAnd", module = "Bits", warn = false)
    public static Value WAnd(Value a, Value b) { return I(i(a) & i(b)); }
    @TLAPlusOperator(identifier = "WOr", module = "Bits", warn = false)
    public static Value WOr(Value a, Value b) { return I(i(a) | i(b)); }
    @TLAPlusOperator(identifier = "WXor", module = "Bits", warn = false)
    public static Value WXor(Value a, Value b) { return I(i(a) ^ i(b)); }

    // ---------------------------------------------------------------- Dy primitives
    static D add(D a, D b) {
        if (a.m.signum() == 0) return b;
        if (b.m.signum() == 0) return a;
        if (a.x == b.x) return new D(a.m.add(b.m), a.x);
        if (a.x > b.x) return new D(a.m.shiftLeft(a.x - b.x).add(b.m), b.x);
        return new D(b.m.shiftLeft(b.x - a.x).add(a.m), a.x);
    }
    static D neg(D a) { return new D(a.m.negate(), a.x); }
    static D abs(D a) { return a.m.signum() < 0 ? neg(a) : a; }
    static D sub(D a, D b) { return add(a, neg(b)); }
    static D mul(D a, D b) { return new D(a.m.multiply(b.m), a.x + b.x); }
    static int cmp(D a, D b) {
        int sa = a.m.signum(), sb = b.m.signum();
        if (sa != sb) return sa < sb ? -1 : 1;
        if (sa == 0) return 0;
        return sub(a, b).m.signum();
    }
    static boolean lt(D a, D b) { return cmp(a, b) < 0; }
    static boolean le(D a, D b) { return cmp(a, b) <= 0; }
    /** truncate magnitude to a multiple of 2^p */
    static D cut(D a, int p, boolean up) {
        if (a.m.signum() == 0 || a.x >= p) return a;
        int s = p - a.x;
        BigInteger m = a.m.abs();
        BigInteger q = m.shiftRight(s);
        if (up && m.getLowestSetBit() < s) q = q.add(BigInteger.ONE);
        return new D(a.m.signum() < 0 ? q.negate() : q, p);
    }
    static D chop(D a, int n) { return a.m.signum() == 0 ? a : cut(a, 15 * (a.top() - n + 1), false); }
    static D up(D a) { return a.m.signum() == 0 ? a : cut(a, 15 * (a.top() - 2), true); }
    static D div(D a, D b) {
        if (a.m.signum() == 0) return ZERO;
        int p = 15 * (a.top() - b.top() - 10);
        int s = a.x - b.x - p;
        BigInteger n = a.m.abs(), q = b.m.abs();
        if (s >= 0) n = n.shiftLeft(s); else q = q.shiftLeft(-s);
        BigInteger r = n.divide(q);
        return new D(a.m.signum() * b.m.signum() < 0 ? r.negate() : r, p);
    }
    static D sqrt(D a) {
        if (a.m.signum() == 0) return ZERO;
        int p = 15 * (Math.floorDiv(a.top(), 2) - 10);
        int s = a.x - 2 * p;
        BigInteger n = s >= 0 ? a.m.shiftLeft(s) : a.m.shiftRight(-s);
        return new D(n.sqrt(), p);
    }
    static D floor(D a) { return a.x >= 0 ? a : new D(a.m.shiftRight(-a.x), 0); }
    static D bits(int b) {
        int x = (b >>> 23) & 255, m = b & 0x7fffff;
        if (x != 0) m |= 0x800000; else x = 1;
        return new D(BigInteger.valueOf(b < 0 ? -m : m), x - 150);
    }
    static D rne(D a) {
        D f = floor(a);
        int c = cmp(sub(a, f), new D(BigInteger.ONE, -1));
        if (c < 0) return f;
        if (c > 0) return add(f, ONE);
        BigInteger n = f.x > 0 ? BigInteger.ZERO : f.m;
        return n.testBit(0) ? add(f, ONE) : f;
    }
    static BigInteger toInt(D a) { return a.x >= 0 ? a.m.shiftLeft(a.x) : a.m.shiftRight(-a.x); }
    static int f32(D a) {
        if (a.m.signum() == 0) return 0;
        int x = a.log2();
        int r;
        if (x > 127) r = 0x7F800000;
        else {
            int q = x < -126 ? -149 : x - 23;
            D s = abs(a);
            int n = toInt(rne(new D(s.m, s.x - q))).intValueExact();
            r = x < -126 ? n : (x + 126) * 8388608 + n;
            if (r < 0 || r > 0x7F800000) r = 0x7F800000;
        }
        return a.m.signum() < 0 ? r | 0x80000000 : r;
    }

    @TLAPlusOperator(identifier = "DInt", module = "Dy", warn = false)
    public static Value DInt(Value n) { return new D(BigInteger.valueOf(i(n)), 0); }
    @TLAPlusOperator(identifier = "DUInt", module = "Dy", warn = false)
    public static Value DUInt(Value n) { return new D(BigInteger.valueOf(i(n) & 0xffffffffL), 0); }
    @TLAPlusOperator(identifier = "DPow2", module = "Dy", warn = false)
    public static Value DPow2(Value n) { return new D(BigInteger.ONE, i(n)); }
    @TLAPlusOperator(identifier = "DSign", module = "Dy", warn = false)
    public static Value DSign(Value a) { return I(d(a).m.signum()); }
    @TLAPlusOperator(identifier = "DNeg", module = "Dy", warn = false)
    public static Value DNeg(Value a) { return neg(d(a)); }
    @TLAPlusOperator(identifier = "DAbs", module = "Dy", warn = false)
    public static Value DAbs(Value a) { return abs(d(a)); }
    @TLAPlusOperator(identifier = "DMul", module = "Dy", warn = false)
    public static Value DMul(Value a, Value b) { return mul(d(a), d(b)); }
    @TLAPlusOperator(identifier = "DAdd", module = "Dy", warn = false)
    public static Value DAdd(Value a, Value b) { return add(d(a), d(b)); }
    @TLAPlusOperator(identifier = "DSub", module = "Dy", warn = false)
    public static Value DSub(Value a, Value b) { return sub(d(a), d(b)); }
    @TLAPlusOperator(identifier = "DCmp", module = "Dy", warn = false)
    public static Value DCmp(Value a, Value b) { return I(cmp(d(a), d(b))); }
    @TLAPlusOperator(identifier = "DLt", module = "Dy", warn = false)
    public static Value DLt(Value a, Value b) { return Bo(lt(d(a), d(b))); }
    @TLAPlusOperator(identifier = "DLe", module = "Dy", warn = false)
    public static Value DLe(Value a, Value b) { return Bo(le(d(a), d(b))); }
    @TLAPlusOperator(identifier = "DEq", module = "Dy", warn = false)
    public static Value DEq(Value a, Value b) { return Bo(cmp(d(a), d(b)) == 0); }
    @TLAPlusOperator(identifier = "DMax", module = "Dy", warn = false)
    public static Value DMax(Value a, Value b) { return lt(d(a), d(b)) ? b : a; }
    @TLAPlusOperator(identifier = "DMin", module = "Dy", warn = false)
    public static Value DMin(Value a, Value b) { return lt(d(b), d(a)) ? b : a; }
    @TLAPlusOperator(identifier = "DChop", module = "Dy", warn = false)
    public static Value DChop(Value a, Value n) { return chop(d(a), i(n)); }
    @TLAPlusOperator(identifier = "DUp", module = "Dy", warn = false)
    public static Value DUp(Value a) { return up(d(a)); }
    @TLAPlusOperator(identifier = "DDiv", module = "Dy", warn = false)
    public static Value DDiv(Value a, Value b) { return div(d(a), d(b)); }
    @TLAPlusOperator(identifier = "DSqrt", module = "Dy", warn = false)
    public static Value DSqrt(Value a) { return sqrt(d(a)); }
    @TLAPlusOperator(identifier = "DFloor", module = "Dy", warn = false)
    public static Value DFloor(Value a) { return floor(d(a)); }
    @TLAPlusOperator(identifier = "DRne", module = "Dy", warn = false)
    public static Value DRne(Value a) { return rne(d(a)); }
    @TLAPlusOperator(identifier = "DToInt", module = "Dy", warn = false)
    public static Value DToInt(Value a) { return I(toInt(d(a)).intValueExact()); }
    @TLAPlusOperator(identifier = "DBits", module = "Dy", warn = false)
    public static Value DBits(Value a) { return bits(i(a)); }
    @TLAPlusOperator(identifier = "DLog2Floor", module = "Dy", warn = false)
    public static Value DLog2Floor(Value a) { return I(d(a).log2()); }
    @TLAPlusOperator(identifier = "DF32", module = "Dy", warn = false)
    public static Value DF32(Value a) { return I(f32(d(a))); }

    // ---------------------------------------------------------------- ENum
    static E norm(D v, D e) {
        D dd = up(e);
        if (lt(HUGE, add(abs(v), dd))) return EANY;
        return new E(NUM, chop(v, 20), dd);
    }
    static E spec2(E a, E b) { return a.k == NAN || b.k == NAN ? ENAN : EANY; }
    static E eadd(E a, E b) {
        if (a.k != NUM || b.k != NUM) return spec2(a, b);
        D v = add(a.v, b.v), er = add(a.e, b.e);
        return norm(v, add(er, mul(U, add(abs(v), er))));
    }
    static E eneg(E a) { return a.k != NUM ? a : new E(NUM, neg(a.v), a.e); }
    @TLAPlusOperator(identifier = "EAnyV", module = "ENum", warn = false)
    public static Value EAnyV(Value x) { return EANY; }
    @TLAPlusOperator(identifier = "ENanV", module = "ENum", warn = false)
    public static Value ENanV(Value x) { return ENAN; }
    @TLAPlusOperator(identifier = "EIsNum", module = "ENum", warn = false)
    public static Value EIsNum(Value a) { return Bo(e(a).k == NUM); }
    @TLAPlusOperator(identifier = "EIsNan", module = "ENum", warn = false)
    public static Value EIsNan(Value a) { return Bo(e(a).k == NAN); }
    @TLAPlusOperator(identifier = "EIsAny", module = "ENum", warn = false)
    public static Value EIsAny(Value a) { return Bo(e(a).k == ANY); }
    @TLAPlusOperator(identifier = "EVal", module = "ENum", warn = false)
    public static Value EVal(Value a) { return e(a).v; }
    @TLAPlusOperator(identifier = "EErr", module = "ENum", warn = false)
    public static Value EErr(Value a) { return e(a).e; }
    @TLAPlusOperator(identifier = "EMk", module = "ENum", warn = false)
    public static Value EMk(Value v, Value er) { return norm(d(v), d(er)); }
    @TLAPlusOperator(identifier = "EOfDy", module = "ENum", warn = false)
    public static Value EOfDy(Value v) { return norm(d(v), ZERO); }
    @TLAPlusOperator(identifier = "EInt", module = "ENum", warn = false)
    public static Value EInt(Value n) { return new E(NUM, new D(BigInteger.valueOf(i(n)), 0), ZERO); }
    @TLAPlusOperator(identifier = "EBits", module = "ENum", warn = false)
    public static Value EBits(Value b) {
        int m = i(b) & 0x7fffffff;
        return m > 0x7F800000 ? ENAN : m == 0x7F800000 ? EANY : new E(NUM, bits(i(b)), ZERO);
    }
    @TLAPlusOperator(identifier = "ENeg", module = "ENum", warn = false)
    public static Value ENeg(Value a) { return eneg(e(a)); }
    @TLAPlusOperator(identifier = "EAbs", module = "ENum", warn = false)
    public static Value EAbs(Value a) { E x = e(a); return x.k != NUM ? x : new E(NUM, abs(x.v), x.e); }
    @TLAPlusOperator(identifier = "EAdd", module = "ENum", warn = false)
    public static Value EAdd(Value a, Value b) { return eadd(e(a), e(b)); }
    @TLAPlusOperator(identifier = "ESub", module = "ENum", warn = false)
    public static Value ESub(Value a, Value b) { return eadd(e(a), eneg(e(b))); }
    @TLAPlusOperator(identifier = "EMul", module = "ENum", warn = false)
    public static Value EMul(Value aa, Value bb) {
        E a = e(aa), b = e(bb);
        if (a.k != NUM || b.k != NUM) return spec2(a, b);
        D v = mul(a.v, b.v);
        D er = add(add(mul(abs(a.v), b.e), mul(abs(b.v), a.e)), mul(a.e, b.e));
        return norm(v, add(add(er, mul(U, add(abs(v), er))), TINY));
    }
    @TLAPlusOperator(identifier = "EDiv", module = "ENum", warn = false)
    public static Value EDiv(Value aa, Value bb) {
        E a = e(aa), b = e(bb);
        if (a.k != NUM || b.k != NUM) return spec2(a, b);
        D m = sub(abs(b.v), mul(TWO, b.e));
        if (m.m.signum() <= 0) return EANY;
        D v = div(a.v, b.v);
        D er = div(up(add(a.e, mul(abs(v), b.e))), m);
        return norm(v, add(add(er, mul(U, add(abs(v), er))), TINY));
    }
    @TLAPlusOperator(identifier = "ESqrt", module = "ENum", warn = false)
    public static Value ESqrt(Value aa) {
        E a = e(aa);
        if (a.k != NUM) return a;
        if (a.v.m.signum() < 0 && lt(a.e, neg(a.v))) return ENAN;
        if (a.v.m.signum() == 0 && a.e.m.signum() == 0) return a;
        if (le(a.v, mul(TWO, a.e))) return EANY;
        D v = sqrt(a.v);
        D er = div(a.e, v);
        return norm(v, add(add(er, mul(U, v)), TINY));
    }
    @TLAPlusOperator(identifier = "ESum", module = "ENum", warn = false)
    public static Value ESum(Value s) {
        Value[] el = ((TupleValue) s.toTuple()).elems;
        boolean any = false;
        for (Value x : el) { if (e(x).k == NAN) return ENAN; if (e(x).k == ANY) any = true; }
        if (any) return EANY;
        D v = ZERO, er = ZERO, m = ZERO;
        for (Value x : el) { E q = e(x); v = add(v, q.v); er = add(er, q.e); m = add(m, abs(q.v)); }
        return norm(v, add(er, mul(mul(new D(BigInteger.valueOf(el.length), 0), U), add(m, er))));
    }
    @TLAPlusOperator(identifier = "EWiden", module = "ENum", warn = false)
    public static Value EWiden(Value a, Value x) { E q = e(a); return q.k != NUM ? q : norm(q.v, add(q.e, abs(d(x)))); }
    @TLAPlusOperator(identifier = "EOk", module = "ENum", warn = false)
    public static Value EOk(Value r, Value a, Value k) {
        E q = e(a); int b = i(r);
        if (q.k == ANY) return Bo(true);
        int mag = b & 0x7fffffff;
        if (q.k == NAN) return Bo(mag > 0x7F800000);
        if (mag >= 0x7F800000) return Bo(false);
        D kk = new D(BigInteger.valueOf(i(k)), 0);
        return Bo(le(abs(sub(bits(b), q.v)), add(mul(kk, q.e), mul(kk, TINY))));
    }
}
