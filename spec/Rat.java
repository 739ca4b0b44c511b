import java.io.Reader;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;

import com.google.gson.JsonArray;
import com.google.gson.JsonElement;
import com.google.gson.JsonObject;
import com.google.gson.JsonParser;
import com.google.gson.JsonPrimitive;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.UserObj;
import tlc2.value.impl.UserValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/**
 * TLC module override for Rat.tla: exact rational arithmetic extended with
 * +oo, -oo and "not a number".  Nothing in this class knows about fibers: it
 * only evaluates the operators whose mathematical meaning Rat.tla states.
 */
public class Rat {

    /** Extended rational number. kind: 0 finite, 1 = +oo, -1 = -oo, 2 = nan. */
    static final class Q extends UserObj {
        final int kind;
        final BigInteger n, d;

        Q(final int kind) {
            this.kind = kind;
            this.n = BigInteger.ZERO;
            this.d = BigInteger.ONE;
        }

        /** n / d must be in lowest terms with d > 0. */
        private Q(final BigInteger n, final BigInteger d) {
            this.kind = 0;
            this.n = n;
            this.d = d;
        }

        static Q of(BigInteger n, BigInteger d) {
            final int s = d.signum();
            if (s == 0) {
                final int t = n.signum();
                return t == 0 ? NAN : t > 0 ? PINF : NINF;
            }
            if (s < 0) {
                n = n.negate();
                d = d.negate();
            }
            if (n.signum() == 0) {
                return ZERO;
            }
            if (d.bitCount() == 1) { // dyadic
                final int k = Math.min(d.getLowestSetBit(), n.getLowestSetBit());
                if (k > 0) {
                    n = n.shiftRight(k);
                    d = d.shiftRight(k);
                }
                return new Q(n, d);
            }
            final BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) {
                n = n.divide(g);
                d = d.divide(g);
            }
            return new Q(n, d);
        }

        static Q of(final long n) {
            return new Q(BigInteger.valueOf(n), BigInteger.ONE);
        }

        static Q of(final double x) {
            if (Double.isNaN(x)) {
                return NAN;
            }
            if (Double.isInfinite(x)) {
                return x > 0 ? PINF : NINF;
            }
            final long bits = Double.doubleToLongBits(x);
            int e = (int) ((bits >> 52) & 0x7ffL);
            long m = bits & 0xfffffffffffffL;
            if (e == 0) {
                e = -1074;
            } else {
                m |= 0x10000000000000L;
                e -= 1075;
            }
            BigInteger b = BigInteger.valueOf(bits < 0 ? -m : m);
            return e >= 0 ? of(b.shiftLeft(e), BigInteger.ONE)
                          : of(b, BigInteger.ONE.shiftLeft(-e));
        }

        /** "n", "n/d", "inf", "-inf", "nan" or a (hexadecimal) float. */
        static Q of(final String s) {
            if (s.equals("inf")) {
                return PINF;
            }
            if (s.equals("-inf")) {
                return NINF;
            }
            if (s.equals("nan")) {
                return NAN;
            }
            if (s.indexOf('x') >= 0) {
                return of(Double.parseDouble(s));
            }
            final int k = s.indexOf('/');
            if (k >= 0) {
                return of(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
            }
            if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0) {
                final java.math.BigDecimal b = new java.math.BigDecimal(s);
                return b.scale() > 0 ? of(b.unscaledValue(), BigInteger.TEN.pow(b.scale()))
                                     : of(b.toBigInteger(), BigInteger.ONE);
            }
            return of(new BigInteger(s), BigInteger.ONE);
        }

        Q neg() {
            return kind == 2 ? NAN : kind != 0 ? (kind == 1 ? NINF : PINF) : new Q(n.negate(), d);
        }

        Q add(final Q o) {
            if (kind != 0 || o.kind != 0) {
                if (kind == 2 || o.kind == 2) {
                    return NAN;
                }
                if (kind == 0) {
                    return o;
                }
                return o.kind == 0 || o.kind == kind ? this : NAN;
            }
            if (d.equals(o.d)) {
                return of(n.add(o.n), d);
            }
            if (d.bitCount() == 1 && o.d.bitCount() == 1) {
                final int a = d.getLowestSetBit(), b = o.d.getLowestSetBit();
                return a > b ? of(n.add(o.n.shiftLeft(a - b)), d)
                             : of(n.shiftLeft(b - a).add(o.n), o.d);
            }
            return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
        }

        Q mul(final Q o) {
            if (kind != 0 || o.kind != 0) {
                if (kind == 2 || o.kind == 2) {
                    return NAN;
                }
                final int s = sgn() * o.sgn();
                return s == 0 ? NAN : s > 0 ? PINF : NINF;
            }
            return of(n.multiply(o.n), d.multiply(o.d));
        }

        Q div(final Q o) {
            if (kind == 2 || o.kind == 2) {
                return NAN;
            }
            if (o.kind != 0) {
                return kind == 0 ? ZERO : NAN;
            }
            if (kind != 0) {
                return o.n.signum() < 0 ? neg() : this;
            }
            return of(n.multiply(o.d), d.multiply(o.n));
        }

        int sgn() {
            return kind == 0 ? n.signum() : kind == 2 ? 0 : kind;
        }

        Q abs() {
            return sgn() < 0 ? neg() : this;
        }

        /** Order of the extended reals; nan is not comparable (use lt/le). */
        int cmp(final Q o) {
            if (kind != 0 || o.kind != 0) {
                final int a = kind == 0 ? 0 : kind, b = o.kind == 0 ? 0 : o.kind;
                return Integer.compare(a, b);
            }
            final int s = n.signum(), t = o.n.signum();
            if (s != t) {
                return Integer.compare(s, t);
            }
            return d.equals(o.d) ? n.compareTo(o.n) : n.multiply(o.d).compareTo(o.n.multiply(d));
        }

        boolean lt(final Q o) {
            return kind != 2 && o.kind != 2 && cmp(o) < 0;
        }

        boolean le(final Q o) {
            return kind != 2 && o.kind != 2 && cmp(o) <= 0;
        }

        @Override
        public int compareTo(final Value v) {
            if (v instanceof UserValue && ((UserValue) v).userObj instanceof Q) {
                return cmp((Q) ((UserValue) v).userObj);
            }
            if (v instanceof IntValue) {
                return cmp(of(((IntValue) v).val));
            }
            throw new RuntimeException("Rat: comparing a number with " + v);
        }

        @Override
        public boolean member(final Value v) {
            throw new RuntimeException("Rat: a number is not a set");
        }

        @Override
        public boolean isFinite() {
            throw new RuntimeException("Rat: a number is not a set");
        }

        @Override
        public StringBuffer toString(final StringBuffer sb, final int offset, final boolean swallow) {
            return sb.append('"').append('#').append(str()).append('"');
        }

        String str() {
            if (kind != 0) {
                return kind == 2 ? "nan" : kind == 1 ? "inf" : "-inf";
            }
            return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d;
        }

        double dbl() {
            if (kind != 0) {
                return kind == 2 ? Double.NaN : kind * Double.POSITIVE_INFINITY;
            }
            return new java.math.BigDecimal(n)
                    .divide(new java.math.BigDecimal(d), java.math.MathContext.DECIMAL64).doubleValue();
        }
    }

    static final Q PINF = new Q(1), NINF = new Q(-1), NAN = new Q(2);
    static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);
    static final Q ONE = new Q(BigInteger.ONE, BigInteger.ONE);

    static final class V extends UserValue {
        V(final Q q) {
            super(q);
        }

        @Override
        public long fingerPrint(final long fp) {
            return new StringValue(((Q) userObj).str()).fingerPrint(fp);
        }

        @Override
        public tlc2.value.IValue permute(final tlc2.value.IMVPerm perm) {
            return this;
        }
    }

    static Value v(final Q q) {
        return new V(q);
    }

    static Q q(final Value x) {
        if (x instanceof UserValue) {
            return (Q) ((UserValue) x).userObj;
        }
        if (x instanceof IntValue) {
            return Q.of(((IntValue) x).val);
        }
        throw new RuntimeException("Rat: not a number: " + x);
    }

    static Value b(final boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    static Value[] seq(final Value x) {
        return ((TupleValue) x.toTuple()).elems;
    }

    // ------------------------------------------------------------- numbers

    public static Value RInt(final Value n) {
        return v(Q.of(((IntValue) n).val));
    }

    public static Value RLit(final Value s) {
        return v(Q.of(((StringValue) s).val.toString()));
    }

    public static Value IsNum(final Value x) {
        return b(x instanceof UserValue);
    }

    public static Value IsInt(final Value x) {
        return b(x instanceof IntValue);
    }

    public static Value IsFin(final Value x) {
        return b(q(x).kind == 0);
    }

    public static Value IsNaN(final Value x) {
        return b(q(x).kind == 2);
    }

    public static Value RAdd(final Value x, final Value y) {
        return v(q(x).add(q(y)));
    }

    public static Value RSub(final Value x, final Value y) {
        return v(q(x).add(q(y).neg()));
    }

    public static Value RMul(final Value x, final Value y) {
        return v(q(x).mul(q(y)));
    }

    public static Value RDiv(final Value x, final Value y) {
        return v(q(x).div(q(y)));
    }

    public static Value RNeg(final Value x) {
        return v(q(x).neg());
    }

    public static Value RAbs(final Value x) {
        return v(q(x).abs());
    }

    public static Value RLt(final Value x, final Value y) {
        return b(q(x).lt(q(y)));
    }

    public static Value RLe(final Value x, final Value y) {
        return b(q(x).le(q(y)));
    }

    public static Value RMin(final Value x, final Value y) {
        return q(x).kind == 2 ? x : q(y).kind == 2 ? y : q(y).lt(q(x)) ? y : x;
    }

    public static Value RMax(final Value x, final Value y) {
        return q(x).kind == 2 ? x : q(y).kind == 2 ? y : q(x).lt(q(y)) ? y : x;
    }

    public static Value IsNull(final Value x) {
        return b(x instanceof StringValue && ((StringValue) x).val.toString().equals("null"));
    }

    public static Value RFloor(final Value x) {
        final Q a = q(x);
        BigInteger[] r = a.n.divideAndRemainder(a.d);
        final BigInteger f = r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0];
        return IntValue.gen(f.intValueExact());
    }

    public static Value RStr(final Value x) {
        final Q a = q(x);
        return new StringValue(a.d.bitLength() < 40 ? a.str() : Double.toString(a.dbl()));
    }

    static boolean close(final Q a, final Q b, final Q tol) {
        if (a.kind != 0 || b.kind != 0) {
            return a.kind != 2 && a.kind == b.kind;
        }
        final Q x = a.abs(), y = b.abs();
        return a.add(b.neg()).abs().le(tol.mul(ONE.add(x.lt(y) ? y : x)));
    }

    public static Value Close(final Value x, final Value y, final Value tol) {
        return b(close(q(x), q(y), q(tol)));
    }

    // ----------------------------------------------------------- sequences

    public static Value RSum(final Value s) {
        Q t = ZERO;
        for (final Value x : seq(s)) {
            t = t.add(q(x));
        }
        return v(t);
    }

    public static Value RDot(final Value s, final Value r) {
        final Value[] a = seq(s), c = seq(r);
        Q t = ZERO;
        for (int i = 0; i < a.length; i++) {
            t = t.add(q(a[i]).mul(q(c[i])));
        }
        return v(t);
    }

    public static Value RMaxSeq(final Value s) {
        Q t = NINF;
        for (final Value x : seq(s)) {
            final Q y = q(x);
            if (y.kind == 2) {
                return v(NAN);
            }
            t = t.lt(y) ? y : t;
        }
        return v(t);
    }

    public static Value RMinSeq(final Value s) {
        Q t = PINF;
        for (final Value x : seq(s)) {
            final Q y = q(x);
            if (y.kind == 2) {
                return v(NAN);
            }
            t = y.lt(t) ? y : t;
        }
        return v(t);
    }

    /** y[i] = sum of val[k] * x[col[k] + 1] over the k with row[k] = i - 1, for i in 1..n. */
    public static Value SpMul(final Value n, final Value row, final Value col, final Value val, final Value x) {
        final Value[] r = seq(row), c = seq(col), a = seq(val), u = seq(x);
        final Q[] y = new Q[((IntValue) n).val];
        java.util.Arrays.fill(y, ZERO);
        for (int k = 0; k < r.length; k++) {
            final Q z = q(u[((IntValue) c[k]).val]);
            final Q w = q(a[k]);
            if (z.kind == 0 && z.n.signum() == 0 && w.kind == 0) {
                continue;
            }
            final int i = ((IntValue) r[k]).val;
            y[i] = y[i].add(w.mul(z));
        }
        final Value[] res = new Value[y.length];
        for (int i = 0; i < y.length; i++) {
            res[i] = v(y[i]);
        }
        return new TupleValue(res);
    }

    /** Sum of the triples at each place, as a function of << row, col >>. */
    public static Value SpMap(final Value row, final Value col, final Value val) {
        final Value[] r = seq(row), c = seq(col), a = seq(val);
        final java.util.TreeMap<Long, Q> m = new java.util.TreeMap<>();
        for (int k = 0; k < r.length; k++) {
            final long p = ((long) ((IntValue) r[k]).val << 32) + ((IntValue) c[k]).val;
            final Q x = m.get(p);
            m.put(p, x == null ? q(a[k]) : x.add(q(a[k])));
        }
        final Value[] dom = new Value[m.size()], img = new Value[m.size()];
        int i = 0;
        for (final java.util.Map.Entry<Long, Q> e : m.entrySet()) {
            dom[i] = new TupleValue(new Value[] {IntValue.gen((int) (e.getKey() >> 32)),
                                                 IntValue.gen((int) (e.getKey() & 0xffffffffL))});
            img[i++] = v(e.getValue());
        }
        return new FcnRcdValue(dom, img, false).normalize();
    }

    /** Solution of the square system A x = b, or << >> if A is singular. */
    public static Value RSolve(final Value A, final Value bb) {
        final Value[] rows = seq(A), rhs = seq(bb);
        final int n = rows.length;
        // Integer-preserving elimination on exact fractions, sparse rows.
        final Q[][] m = new Q[n][n + 1];
        for (int i = 0; i < n; i++) {
            final Value[] r = seq(rows[i]);
            for (int j = 0; j < n; j++) {
                m[i][j] = q(r[j]);
            }
            m[i][n] = q(rhs[i]);
        }
        final int[] where = new int[n];
        final boolean[] used = new boolean[n];
        for (int j = 0; j < n; j++) {
            int p = -1, best = Integer.MAX_VALUE;
            for (int i = 0; i < n; i++) {
                if (!used[i] && m[i][j].n.signum() != 0) {
                    int w = 0;
                    for (int k = j; k < n; k++) {
                        if (m[i][k].n.signum() != 0) {
                            w += 64 + m[i][k].n.bitLength() + m[i][k].d.bitLength();
                        }
                    }
                    if (w < best) {
                        best = w;
                        p = i;
                    }
                }
            }
            if (p < 0) {
                return new TupleValue(new Value[0]);
            }
            used[p] = true;
            where[j] = p;
            final Q inv = ONE.div(m[p][j]);
            for (int k = j; k <= n; k++) {
                if (m[p][k].n.signum() != 0) {
                    m[p][k] = m[p][k].mul(inv);
                }
            }
            for (int i = 0; i < n; i++) {
                if (i != p && m[i][j].n.signum() != 0) {
                    final Q f = m[i][j].neg();
                    for (int k = j; k <= n; k++) {
                        if (m[p][k].n.signum() != 0) {
                            m[i][k] = m[i][k].add(f.mul(m[p][k]));
                        }
                    }
                }
            }
        }
        final Value[] x = new Value[n];
        for (int j = 0; j < n; j++) {
            x[j] = v(m[where[j]][n]);
        }
        return new TupleValue(x);
    }

    // ---------------------------------------------------------------- JSON

    static Value json(final JsonElement e) {
        if (e.isJsonNull()) {
            return new StringValue("null");
        }
        if (e.isJsonPrimitive()) {
            final JsonPrimitive p = e.getAsJsonPrimitive();
            if (p.isBoolean()) {
                return b(p.getAsBoolean());
            }
            if (p.isNumber()) {
                return IntValue.gen(new java.math.BigDecimal(p.getAsString()).intValueExact());
            }
            final String s = p.getAsString();
            return s.startsWith("#") ? v(Q.of(s.substring(1))) : new StringValue(s);
        }
        if (e.isJsonArray()) {
            final JsonArray a = e.getAsJsonArray();
            final Value[] x = new Value[a.size()];
            for (int i = 0; i < x.length; i++) {
                x[i] = json(a.get(i));
            }
            return new TupleValue(x);
        }
        final JsonObject o = e.getAsJsonObject();
        final ArrayList<UniqueString> k = new ArrayList<>();
        final ArrayList<Value> w = new ArrayList<>();
        for (final java.util.Map.Entry<String, JsonElement> f : o.entrySet()) {
            k.add(UniqueString.uniqueStringOf(f.getKey()));
            w.add(json(f.getValue()));
        }
        return new RecordValue(k.toArray(new UniqueString[0]), w.toArray(new Value[0]), false);
    }

    static Value loaded;
    static String loadedName;

    /** Contents of a JSON file; "#x" strings are numbers (read once per run). */
    public static synchronized Value RatJson(final Value file) throws Exception {
        final String name = ((StringValue) file).val.toString();
        if (loaded == null || !name.equals(loadedName)) {
            try (Reader r = Files.newBufferedReader(Paths.get(name), StandardCharsets.UTF_8)) {
                loaded = json(new JsonParser().parse(r));
                loaded.deepNormalize();
                loadedName = name;
            }
        }
        return loaded;
    }
}
