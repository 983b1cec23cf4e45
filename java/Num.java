// TLC module overrides for spec/Num.tla: the same functions over unbounded integers.
import java.math.BigInteger;
import java.util.Arrays;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public class Num {

    // ---------------------------------------------------------- representation
    static final BigInteger LO = BigInteger.valueOf(Integer.MIN_VALUE);
    static final BigInteger HI = BigInteger.valueOf(Integer.MAX_VALUE);

    static final class Big extends UserObj {
        final BigInteger b;
        Big(BigInteger b) { this.b = b; }
        @Override public int compareTo(Value o) {
            return b.compareTo(num(o));
        }
        @Override public boolean member(Value v) { return false; }
        @Override public boolean isFinite() { return true; }
        @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
            return sb.append(b.toString());
        }
    }

    static final class Mat extends UserObj {
        final BigInteger[][] a;
        final int cols;
        Mat(BigInteger[][] a, int cols) { this.a = a; this.cols = cols; }
        @Override public int compareTo(Value o) {
            return Arrays.deepEquals(a, mat(o).a) ? 0 : 1;
        }
        @Override public boolean member(Value v) { return false; }
        @Override public boolean isFinite() { return true; }
        @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
            sb.append("<<");
            for (int i = 0; i < a.length; i++) {
                if (i > 0) sb.append(", ");
                sb.append("<<");
                for (int j = 0; j < a[i].length; j++) {
                    if (j > 0) sb.append(", ");
                    sb.append(a[i][j]);
                }
                sb.append(">>");
            }
            return sb.append(">>");
        }
    }

    static Value big(BigInteger b) {
        if (b.bitLength() < 32) return IntValue.gen(b.intValue());
        return new UserValue(new Big(b));
    }

    static BigInteger num(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        if (v instanceof UserValue && ((UserValue) v).userObj instanceof Big)
            return ((Big) ((UserValue) v).userObj).b;
        if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
        Object t = v.toTuple();
        throw new RuntimeException("not a number: " + v);
    }

    static int small(Value v) {
        return num(v).intValueExact();
    }

    static BigInteger[] vec(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("not a vector: " + v);
        BigInteger[] r = new BigInteger[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = num(t.elems[i]);
        return r;
    }

    static Value vec(BigInteger[] a) {
        Value[] r = new Value[a.length];
        for (int i = 0; i < r.length; i++) r[i] = big(a[i]);
        return new TupleValue(r);
    }

    static Mat mat(Value v) {
        if (v instanceof UserValue && ((UserValue) v).userObj instanceof Mat)
            return (Mat) ((UserValue) v).userObj;
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("not a matrix: " + v);
        BigInteger[][] a = new BigInteger[t.elems.length][];
        for (int i = 0; i < a.length; i++) a[i] = vec(t.elems[i]);
        return new Mat(a, a.length == 0 ? 0 : a[0].length);
    }

    static Value mat(BigInteger[][] a, int cols) {
        return new UserValue(new Mat(a, cols));
    }

    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static BigInteger root(BigInteger a, int k) {
        if (a.signum() < 0) throw new RuntimeException("root of a negative number");
        if (a.signum() == 0 || k == 1) return a;
        if (k == 2) return a.sqrt();
        int bl = a.bitLength();
        if (bl <= k) return BigInteger.ONE;
        // double estimate of the root, from above, then Newton from above
        int sh = Math.max(0, bl - 60);
        sh -= sh % k;
        double est = Math.pow(a.shiftRight(sh).doubleValue(), 1.0 / k);
        int rs = sh / k;
        BigInteger r;
        double up = est * (1 + 1e-12);
        int extra = 50;
        BigInteger scaled = new java.math.BigDecimal(Math.scalb(up, extra)).toBigInteger().add(BigInteger.ONE);
        // scaled = up * 2^extra
        int tot = rs - extra;
        r = tot >= 0 ? scaled.shiftLeft(tot) : scaled.shiftRight(-tot).add(BigInteger.ONE);
        r = r.add(BigInteger.ONE);
        BigInteger kk = BigInteger.valueOf(k), k1 = BigInteger.valueOf(k - 1);
        while (true) {
            BigInteger p = r.pow(k - 1);
            BigInteger n = r.multiply(k1).add(a.divide(p)).divide(kk);
            if (n.compareTo(r) >= 0) break;
            r = n;
        }
        while (r.pow(k).compareTo(a) > 0) r = r.subtract(BigInteger.ONE);
        while (r.add(BigInteger.ONE).pow(k).compareTo(a) <= 0) r = r.add(BigInteger.ONE);
        return r;
    }

    static BigInteger floorDiv(BigInteger a, BigInteger b) {
        BigInteger[] qr = a.divideAndRemainder(b);
        return (qr[1].signum() != 0 && (qr[1].signum() != b.signum()))
            ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }

    // ------------------------------------------------------------------ numbers
    @TLAPlusOperator(identifier = "NParse", module = "Num", warn = false)
    public static Value nParse(Value v) { return big(num(v)); }

    @TLAPlusOperator(identifier = "NAdd", module = "Num", warn = false)
    public static Value nAdd(Value a, Value b) { return big(num(a).add(num(b))); }

    @TLAPlusOperator(identifier = "NSub", module = "Num", warn = false)
    public static Value nSub(Value a, Value b) { return big(num(a).subtract(num(b))); }

    @TLAPlusOperator(identifier = "NMul", module = "Num", warn = false)
    public static Value nMul(Value a, Value b) { return big(num(a).multiply(num(b))); }

    @TLAPlusOperator(identifier = "NNeg", module = "Num", warn = false)
    public static Value nNeg(Value a) { return big(num(a).negate()); }

    @TLAPlusOperator(identifier = "NAbs", module = "Num", warn = false)
    public static Value nAbs(Value a) { return big(num(a).abs()); }

    @TLAPlusOperator(identifier = "NSign", module = "Num", warn = false)
    public static Value nSign(Value a) { return IntValue.gen(num(a).signum()); }

    @TLAPlusOperator(identifier = "NLeq", module = "Num", warn = false)
    public static Value nLeq(Value a, Value b) { return bool(num(a).compareTo(num(b)) <= 0); }

    @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false)
    public static Value nLt(Value a, Value b) { return bool(num(a).compareTo(num(b)) < 0); }

    @TLAPlusOperator(identifier = "NEq", module = "Num", warn = false)
    public static Value nEq(Value a, Value b) { return bool(num(a).equals(num(b))); }

    @TLAPlusOperator(identifier = "NMax", module = "Num", warn = false)
    public static Value nMax(Value a, Value b) { return big(num(a).max(num(b))); }

    @TLAPlusOperator(identifier = "NPow", module = "Num", warn = false)
    public static Value nPow(Value a, Value k) { return big(num(a).pow(small(k))); }

    @TLAPlusOperator(identifier = "NDiv", module = "Num", warn = false)
    public static Value nDiv(Value a, Value b) { return big(floorDiv(num(a), num(b))); }

    @TLAPlusOperator(identifier = "NShl", module = "Num", warn = false)
    public static Value nShl(Value a, Value k) {
        int s = small(k);
        if (s < 0) throw new RuntimeException("NShl by a negative amount");
        return big(num(a).shiftLeft(s));
    }

    @TLAPlusOperator(identifier = "NBits", module = "Num", warn = false)
    public static Value nBits(Value a) { return IntValue.gen(num(a).abs().bitLength()); }

    @TLAPlusOperator(identifier = "NRoot", module = "Num", warn = false)
    public static Value nRoot(Value a, Value k) { return big(root(num(a), small(k))); }

    @TLAPlusOperator(identifier = "NGcd", module = "Num", warn = false)
    public static Value nGcd(Value a, Value b) {
        BigInteger g = num(a).gcd(num(b));
        return big(g.signum() == 0 ? BigInteger.ONE : g);
    }

    // ------------------------------------------------------------------ vectors
    @TLAPlusOperator(identifier = "VSum", module = "Num", warn = false)
    public static Value vSum(Value v) {
        BigInteger s = BigInteger.ZERO;
        for (BigInteger b : vec(v)) s = s.add(b);
        return big(s);
    }

    static long[] longs(BigInteger[] a) {     // small enough for the sums below
        long[] r = new long[a.length];
        for (int i = 0; i < a.length; i++) {
            r[i] = a[i].longValueExact();
            if (Math.abs(r[i]) > (1L << 21)) throw new RuntimeException("VAbs: too large");
        }
        if (a.length > (1 << 18)) throw new RuntimeException("VAbs: too long");
        return r;
    }

    @TLAPlusOperator(identifier = "VAbsDot", module = "Num", warn = false)
    public static Value vAbsDot(Value u, Value v) {
        long[] a = longs(vec(u)), b = longs(vec(v));
        if (a.length != b.length) throw new RuntimeException("VAbsDot: lengths differ");
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < a.length; i++) {
            long t = 0, x = a[i], y = b[i];        // below 2^44 * 2^18
            for (int j = 0; j < i; j++) t += Math.abs(x - a[j]) * Math.abs(y - b[j]);
            s = s.add(BigInteger.valueOf(t));
        }
        return big(s.shiftLeft(1));
    }

    @TLAPlusOperator(identifier = "VAbsRows", module = "Num", warn = false)
    public static Value vAbsRows(Value u) {
        long[] a = longs(vec(u));
        BigInteger[] r = new BigInteger[a.length];
        for (int i = 0; i < a.length; i++) {
            long t = 0, x = a[i];
            for (int j = 0; j < a.length; j++) t += Math.abs(x - a[j]);
            r[i] = BigInteger.valueOf(t);
        }
        return vec(r);
    }

    static BigInteger dot(BigInteger[] a, BigInteger[] b) {
        if (a.length != b.length) throw new RuntimeException("VDot: lengths differ");
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < a.length; i++)
            if (a[i].signum() != 0 && b[i].signum() != 0) s = s.add(a[i].multiply(b[i]));
        return s;
    }

    @TLAPlusOperator(identifier = "VDot", module = "Num", warn = false)
    public static Value vDot(Value u, Value v) { return big(dot(vec(u), vec(v))); }

    @TLAPlusOperator(identifier = "VSort", module = "Num", warn = false)
    public static Value vSort(Value v) {
        BigInteger[] a = vec(v).clone();
        Arrays.sort(a);
        return vec(a);
    }

    // ----------------------------------------------------------------- matrices
    @TLAPlusOperator(identifier = "MParse", module = "Num", warn = false)
    public static Value mParse(Value v) { Mat m = mat(v); return mat(m.a, m.cols); }

    @TLAPlusOperator(identifier = "MRows", module = "Num", warn = false)
    public static Value mRows(Value v) { return IntValue.gen(mat(v).a.length); }

    @TLAPlusOperator(identifier = "MCols", module = "Num", warn = false)
    public static Value mCols(Value v) { return IntValue.gen(mat(v).cols); }

    @TLAPlusOperator(identifier = "MAt", module = "Num", warn = false)
    public static Value mAt(Value v, Value i, Value j) {
        return big(mat(v).a[small(i) - 1][small(j) - 1]);
    }

    @TLAPlusOperator(identifier = "MRow", module = "Num", warn = false)
    public static Value mRow(Value v, Value i) { return vec(mat(v).a[small(i) - 1]); }

    @TLAPlusOperator(identifier = "MCol", module = "Num", warn = false)
    public static Value mCol(Value v, Value j) {
        BigInteger[][] a = mat(v).a;
        BigInteger[] r = new BigInteger[a.length];
        for (int i = 0; i < r.length; i++) r[i] = a[i][small(j) - 1];
        return vec(r);
    }

    @TLAPlusOperator(identifier = "MEq", module = "Num", warn = false)
    public static Value mEq(Value v, Value w) { return bool(Arrays.deepEquals(mat(v).a, mat(w).a)); }

    interface F1 { BigInteger f(BigInteger a); }
    interface F2 { BigInteger f(BigInteger a, BigInteger b); }

    static Value map(Value v, F1 f) {
        Mat m = mat(v);
        BigInteger[][] r = new BigInteger[m.a.length][m.cols];
        for (int i = 0; i < r.length; i++)
            for (int j = 0; j < m.cols; j++) r[i][j] = f.f(m.a[i][j]);
        return mat(r, m.cols);
    }

    static Value zip(Value v, Value w, F2 f) {
        Mat m = mat(v), k = mat(w);
        if (m.a.length != k.a.length || m.cols != k.cols) throw new RuntimeException("shapes differ");
        BigInteger[][] r = new BigInteger[m.a.length][m.cols];
        for (int i = 0; i < r.length; i++)
            for (int j = 0; j < m.cols; j++) r[i][j] = f.f(m.a[i][j], k.a[i][j]);
        return mat(r, m.cols);
    }

    @TLAPlusOperator(identifier = "MScale", module = "Num", warn = false)
    public static Value mScale(Value v, Value k) { BigInteger b = num(k); return map(v, x -> x.multiply(b)); }

    @TLAPlusOperator(identifier = "MAdd", module = "Num", warn = false)
    public static Value mAdd(Value v, Value w) { return zip(v, w, BigInteger::add); }

    @TLAPlusOperator(identifier = "MSub", module = "Num", warn = false)
    public static Value mSub(Value v, Value w) { return zip(v, w, BigInteger::subtract); }

    @TLAPlusOperator(identifier = "MAbs", module = "Num", warn = false)
    public static Value mAbs(Value v) { return map(v, BigInteger::abs); }

    @TLAPlusOperator(identifier = "MTake", module = "Num", warn = false)
    public static Value mTake(Value v, Value r, Value c) {
        BigInteger[][] a = mat(v).a;
        BigInteger[] rr = vec(r), cc = vec(c);
        BigInteger[][] o = new BigInteger[rr.length][cc.length];
        for (int i = 0; i < rr.length; i++)
            for (int j = 0; j < cc.length; j++)
                o[i][j] = a[rr[i].intValueExact() - 1][cc[j].intValueExact() - 1];
        return mat(o, cc.length);
    }

    @TLAPlusOperator(identifier = "MTrans", module = "Num", warn = false)
    public static Value mTrans(Value v) {
        Mat m = mat(v);
        BigInteger[][] o = new BigInteger[m.cols][m.a.length];
        for (int i = 0; i < m.a.length; i++)
            for (int j = 0; j < m.cols; j++) o[j][i] = m.a[i][j];
        return mat(o, m.a.length);
    }

    @TLAPlusOperator(identifier = "MMul", module = "Num", warn = false)
    public static Value mMul(Value v, Value w) {
        Mat m = mat(v), k = mat(w);
        if (m.cols != k.a.length) throw new RuntimeException("MMul: shapes differ");
        BigInteger[][] o = new BigInteger[m.a.length][k.cols];
        for (int i = 0; i < o.length; i++)
            for (int j = 0; j < k.cols; j++) {
                BigInteger s = BigInteger.ZERO;
                for (int l = 0; l < m.cols; l++) s = s.add(m.a[i][l].multiply(k.a[l][j]));
                o[i][j] = s;
            }
        return mat(o, k.cols);
    }

    @TLAPlusOperator(identifier = "MRowSums", module = "Num", warn = false)
    public static Value mRowSums(Value v) {
        BigInteger[][] a = mat(v).a;
        BigInteger[] r = new BigInteger[a.length];
        for (int i = 0; i < r.length; i++) {
            BigInteger s = BigInteger.ZERO;
            for (BigInteger b : a[i]) s = s.add(b);
            r[i] = s;
        }
        return vec(r);
    }

    @TLAPlusOperator(identifier = "MColSums", module = "Num", warn = false)
    public static Value mColSums(Value v) {
        Mat m = mat(v);
        BigInteger[] r = new BigInteger[m.cols];
        for (int j = 0; j < r.length; j++) {
            BigInteger s = BigInteger.ZERO;
            for (int i = 0; i < m.a.length; i++) s = s.add(m.a[i][j]);
            r[j] = s;
        }
        return vec(r);
    }

    @TLAPlusOperator(identifier = "MTotal", module = "Num", warn = false)
    public static Value mTotal(Value v) {
        BigInteger s = BigInteger.ZERO;
        for (BigInteger[] row : mat(v).a) for (BigInteger b : row) s = s.add(b);
        return big(s);
    }

    @TLAPlusOperator(identifier = "MMaxAbs", module = "Num", warn = false)
    public static Value mMaxAbs(Value v) {
        BigInteger s = BigInteger.ZERO;
        for (BigInteger[] row : mat(v).a) for (BigInteger b : row) s = s.max(b.abs());
        return big(s);
    }

    // fraction-free elimination
    static BigInteger det(BigInteger[][] m) {
        int n = m.length;
        BigInteger[][] a = new BigInteger[n][];
        for (int i = 0; i < n; i++) a[i] = m[i].clone();
        BigInteger prev = BigInteger.ONE;
        int sign = 1;
        for (int k = 0; k < n - 1; k++) {
            if (a[k][k].signum() == 0) {
                int p = k + 1;
                while (p < n && a[p][k].signum() == 0) p++;
                if (p == n) return BigInteger.ZERO;
                BigInteger[] t = a[k]; a[k] = a[p]; a[p] = t;
                sign = -sign;
            }
            for (int i = k + 1; i < n; i++)
                for (int j = k + 1; j < n; j++)
                    a[i][j] = a[i][j].multiply(a[k][k]).subtract(a[i][k].multiply(a[k][j])).divide(prev);
            prev = a[k][k];
        }
        return sign > 0 ? a[n - 1][n - 1] : a[n - 1][n - 1].negate();
    }

    static BigInteger[][] square(Value v) {
        Mat m = mat(v);
        if (m.a.length == 0 || m.a.length != m.cols) throw new RuntimeException("not a square matrix");
        return m.a;
    }

    @TLAPlusOperator(identifier = "MDet", module = "Num", warn = false)
    public static Value mDet(Value v) { return big(det(square(v))); }

    @TLAPlusOperator(identifier = "MAdj", module = "Num", warn = false)
    public static Value mAdj(Value v) {
        BigInteger[][] a = square(v);
        int n = a.length;
        BigInteger[][] r = new BigInteger[n][n];
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) {
                if (n == 1) { r[i][j] = BigInteger.ONE; continue; }
                BigInteger[][] s = new BigInteger[n - 1][n - 1];       // without row j and column i
                for (int p = 0; p < n - 1; p++)
                    for (int q = 0; q < n - 1; q++) s[p][q] = a[p < j ? p : p + 1][q < i ? q : q + 1];
                BigInteger d = det(s);
                r[i][j] = (i + j) % 2 == 0 ? d : d.negate();
            }
        return mat(r, n);
    }

    @TLAPlusOperator(identifier = "MWithin", module = "Num", warn = false)
    public static Value mWithin(Value v, Value w, Value k, Value t) {
        Mat m = mat(v), q = mat(w);
        int kk = small(k);
        BigInteger tt = num(t);
        if (m.a.length != q.a.length) return BoolValue.ValFalse;
        for (int i = 0; i < m.a.length; i++) {
            if (m.a[i].length != q.a[i].length) return BoolValue.ValFalse;
            for (int j = 0; j < m.a[i].length; j++)
                if (m.a[i][j].subtract(q.a[i][j]).abs().shiftLeft(kk).compareTo(q.a[i][j].abs().add(tt)) > 0)
                    return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }

    @TLAPlusOperator(identifier = "MDot", module = "Num", warn = false)
    public static Value mDot(Value v, Value w) {
        Mat m = mat(v), k = mat(w);
        if (m.a.length != k.a.length) throw new RuntimeException("MDot: shapes differ");
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < m.a.length; i++) s = s.add(dot(m.a[i], k.a[i]));
        return big(s);
    }

    @TLAPlusOperator(identifier = "MShift", module = "Num", warn = false)
    public static Value mShift(Value v, Value k, Value r, Value c, Value t) {
        Mat m = mat(v);
        BigInteger kk = num(k), tt = num(t);
        BigInteger[] rr = vec(r), cc = vec(c);
        BigInteger[][] o = new BigInteger[m.a.length][m.cols];
        for (int i = 0; i < o.length; i++)
            for (int j = 0; j < m.cols; j++)
                o[i][j] = kk.multiply(m.a[i][j]).subtract(rr[i]).subtract(cc[j]).add(tt);
        return mat(o, m.cols);
    }

    @TLAPlusOperator(identifier = "MZeroDiag", module = "Num", warn = false)
    public static Value mZeroDiag(Value v) {
        Mat m = mat(v);
        BigInteger[][] o = new BigInteger[m.a.length][];
        for (int i = 0; i < o.length; i++) {
            o[i] = m.a[i].clone();
            if (i < m.cols) o[i][i] = BigInteger.ZERO;
        }
        return mat(o, m.cols);
    }

    @TLAPlusOperator(identifier = "MSqDist", module = "Num", warn = false)
    public static Value mSqDist(Value v, Value w) {
        Mat x = mat(v), y = mat(w);
        BigInteger[][] o = new BigInteger[x.a.length][y.a.length];
        for (int i = 0; i < x.a.length; i++)
            for (int j = 0; j < y.a.length; j++) {
                BigInteger s = BigInteger.ZERO;
                for (int k = 0; k < x.cols; k++) {
                    BigInteger d = x.a[i][k].subtract(y.a[j][k]);
                    s = s.add(d.multiply(d));
                }
                o[i][j] = s;
            }
        return mat(o, y.a.length);
    }

    @TLAPlusOperator(identifier = "MPowRoot", module = "Num", warn = false)
    public static Value mPowRoot(Value v, Value p, Value q, Value f) {
        int pp = small(p), qq = small(q), ff = small(f);
        Mat m = mat(v);
        boolean sym = m.a.length == m.cols;
        for (int i = 0; sym && i < m.cols; i++)
            for (int j = 0; sym && j < i; j++) sym = m.a[i][j].equals(m.a[j][i]);
        BigInteger[][] o = new BigInteger[m.a.length][m.cols];
        for (int i = 0; i < o.length; i++)
            for (int j = 0; j < m.cols; j++)
                o[i][j] = (sym && j < i) ? o[j][i]
                    : root(m.a[i][j].pow(pp).shiftLeft(qq * ff), qq);
        return mat(o, m.cols);
    }

    @TLAPlusOperator(identifier = "MPowDyad", module = "Num", warn = false)
    public static Value mPowDyad(Value v, Value p, Value k, Value f) {
        int pp = small(p), kk = small(k), ff = small(f);
        Mat m = mat(v);
        BigInteger[][] o = new BigInteger[m.a.length][m.cols];
        java.util.HashMap<BigInteger, BigInteger> seen = new java.util.HashMap<>();
        for (int i = 0; i < o.length; i++)
            for (int j = 0; j < m.cols; j++)
                o[i][j] = seen.computeIfAbsent(m.a[i][j], a -> {
                    BigInteger acc = a.pow(pp >> kk).shiftLeft(ff), s = a.shiftLeft(ff);
                    for (int b = kk - 1; b >= 0; b--) {
                        s = s.shiftLeft(ff).sqrt();
                        if ((pp >> b & 1) == 1) acc = acc.multiply(s).shiftRight(ff);
                    }
                    return acc;
                });
        return mat(o, m.cols);
    }
}
