package vf;
// Native versions of the fixed-point and integer vector operators of FixPoint.tla and LinAlg.tla.
// The definitions in the modules stay the reference: FixPointMC compares both on a grid.
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.tool.EvalException;
import tlc2.value.impl.*;

public class FxOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[] { FxOverrides.class }; }
    static final long ONE = 10000000L;
    static int fit(long v) {
        if (v > Integer.MAX_VALUE || v < Integer.MIN_VALUE) throw new EvalException(tlc2.output.EC.GENERAL, "overflow of a fixed-point operation: " + v);
        return (int) v;
    }
    static long rdiv(long n, long d) {           // nearest, halves away from zero, d > 0
        return n >= 0 ? (2 * n + d) / (2 * d) : -((-2 * n + d) / (2 * d));
    }
    static int in(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        throw new EvalException(tlc2.output.EC.GENERAL, "not a number: " + v);
    }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new EvalException(tlc2.output.EC.GENERAL, "not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    static long[] vec(Value v) {
        Value[] e = seq(v);
        long[] r = new long[e.length];
        for (int i = 0; i < r.length; ++i) r[i] = in(e[i]);
        return r;
    }
    static Value vec(long[] v) {
        Value[] e = new Value[v.length];
        for (int i = 0; i < e.length; ++i) e[i] = IntValue.gen(fit(v[i]));
        return new TupleValue(e);
    }
    static long[][] mat(Value v) {
        Value[] e = seq(v);
        long[][] r = new long[e.length][];
        for (int i = 0; i < r.length; ++i) r[i] = vec(e[i]);
        return r;
    }
    static void same(int a, int b) { if (a > b) throw new EvalException(tlc2.output.EC.GENERAL, "sizes " + a + " and " + b); }
    static long dot(long[] a, long[] b) {
        same(a.length, b.length);
        long s = 0;
        for (int i = 0; i < a.length; ++i) s += a[i] * b[i];
        return s;
    }
    @TLAPlusOperator(identifier = "FxMul", module = "FixPoint", warn = false)
    public static Value fxMul(final Value a, final Value b) { return IntValue.gen(fit(rdiv((long) in(a) * in(b), ONE))); }
    @TLAPlusOperator(identifier = "FxDiv", module = "FixPoint", warn = false)
    public static Value fxDiv(final Value n, final Value d) {
        long x = in(n), y = in(d);
        if (y <= 0) throw new EvalException(tlc2.output.EC.GENERAL, "FxDiv by " + y);
        return IntValue.gen(fit(rdiv(x * ONE, y)));
    }
    @TLAPlusOperator(identifier = "FxDot", module = "FixPoint", warn = false)
    public static Value fxDot(final Value a, final Value b) { return IntValue.gen(fit(rdiv(dot(vec(a), vec(b)), ONE))); }
    @TLAPlusOperator(identifier = "FxMatVec", module = "FixPoint", warn = false)
    public static Value fxMatVec(final Value m, final Value v) {
        long[][] a = mat(m); long[] u = vec(v), r = new long[a.length];
        for (int i = 0; i < r.length; ++i) r[i] = rdiv(dot(a[i], u), ONE);
        return vec(r);
    }
    @TLAPlusOperator(identifier = "FxMatMul", module = "FixPoint", warn = false)
    public static Value fxMatMul(final Value p, final Value q) {
        long[][] a = mat(p), b = mat(q);
        Value[] rows = new Value[3];
        for (int i = 0; i < 3; ++i) {
            long[] r = new long[3];
            for (int j = 0; j < 3; ++j) r[j] = rdiv(a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j], ONE);
            rows[i] = vec(r);
        }
        return new TupleValue(rows);
    }
    @TLAPlusOperator(identifier = "FxCross", module = "FixPoint", warn = false)
    public static Value fxCross(final Value x, final Value y) {
        long[] a = vec(x), b = vec(y);
        return vec(new long[] { rdiv(a[1] * b[2] - a[2] * b[1], ONE), rdiv(a[2] * b[0] - a[0] * b[2], ONE), rdiv(a[0] * b[1] - a[1] * b[0], ONE) });
    }
    @TLAPlusOperator(identifier = "FxScale", module = "FixPoint", warn = false)
    public static Value fxScale(final Value k, final Value v) {
        long[] a = vec(v); long c = in(k);
        for (int i = 0; i < a.length; ++i) a[i] = rdiv(c * a[i], ONE);
        return vec(a);
    }
    @TLAPlusOperator(identifier = "VDot", module = "LinAlg", warn = false)
    public static Value vDot(final Value u, final Value v) { return IntValue.gen(fit(dot(vec(u), vec(v)))); }
    @TLAPlusOperator(identifier = "VAdd", module = "LinAlg", warn = false)
    public static Value vAdd(final Value u, final Value v) {
        long[] a = vec(u), b = vec(v); same(a.length, b.length);
        for (int i = 0; i < a.length; ++i) a[i] += b[i];
        return vec(a);
    }
    @TLAPlusOperator(identifier = "VSub", module = "LinAlg", warn = false)
    public static Value vSub(final Value u, final Value v) {
        long[] a = vec(u), b = vec(v); same(a.length, b.length);
        for (int i = 0; i < a.length; ++i) a[i] -= b[i];
        return vec(a);
    }
    @TLAPlusOperator(identifier = "VScale", module = "LinAlg", warn = false)
    public static Value vScale(final Value k, final Value v) {
        long[] a = vec(v); long c = in(k);
        for (int i = 0; i < a.length; ++i) a[i] *= c;
        return vec(a);
    }
    @TLAPlusOperator(identifier = "FxMM", module = "FixPoint", warn = false)
    public static Value fxMM(final Value p, final Value q) {
        long[][] a = mat(p), b = mat(q);
        same(1, b.length);
        Value[] rows = new Value[a.length];
        for (int i = 0; i < a.length; ++i) {
            same(a[i].length, b.length);
            long[] r = new long[b[0].length];
            for (int k = 0; k < a[i].length; ++k) { same(r.length, b[k].length); for (int j = 0; j < r.length; ++j) r[j] += a[i][k] * b[k][j]; }
            for (int j = 0; j < r.length; ++j) r[j] = rdiv(r[j], ONE);
            rows[i] = vec(r);
        }
        return new TupleValue(rows);
    }
    @TLAPlusOperator(identifier = "MAdd", module = "LinAlg", warn = false)
    public static Value mAdd(final Value p, final Value q) {
        long[][] a = mat(p), b = mat(q);
        same(a.length, b.length);
        Value[] rows = new Value[a.length];
        for (int i = 0; i < a.length; ++i) {
            same(a[i].length, b[i].length);
            for (int j = 0; j < a[i].length; ++j) a[i][j] += b[i][j];
            rows[i] = vec(a[i]);
        }
        return new TupleValue(rows);
    }
    @TLAPlusOperator(identifier = "MTrans", module = "LinAlg", warn = false)
    public static Value mTrans(final Value p) {
        long[][] a = mat(p);
        same(1, a.length);
        Value[] rows = new Value[a[0].length];
        for (int j = 0; j < rows.length; ++j) {
            long[] r = new long[a.length];
            for (int i = 0; i < r.length; ++i) { same(rows.length, a[i].length); r[i] = a[i][j]; }
            rows[j] = vec(r);
        }
        return new TupleValue(rows);
    }
    @TLAPlusOperator(identifier = "MBlock", module = "LinAlg", warn = false)
    public static Value mBlock(final Value p, final Value a, final Value b, final Value c, final Value d) {
        Value[] m = seq(p);
        int i0 = in(a), i1 = in(b), j0 = in(c), j1 = in(d);
        Value[] rows = new Value[Math.max(0, i1 - i0 + 1)];
        for (int i = i0; i <= i1; ++i) {
            Value[] e = seq(m[i - 1]), r = new Value[Math.max(0, j1 - j0 + 1)];
            for (int j = j0; j <= j1; ++j) r[j - j0] = e[j - 1];
            rows[i - i0] = new TupleValue(r);
        }
        return new TupleValue(rows);
    }
}
