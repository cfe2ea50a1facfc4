// TLC overrides of the operators of Real.tla: IEEE-754 binary64 arithmetic on <<hi, lo>> pairs.
import tlc2.value.impl.*;
import java.math.*;

public class Real {
	static double d(Value v) {
		final TupleValue t = v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
		return Double.longBitsToDouble((((long) ((IntValue) t.elems[0]).val) << 32) | (((IntValue) t.elems[1]).val & 0xffffffffL));
	}
	static Value r(double x) {
		final long l = Double.doubleToRawLongBits(x);
		return new TupleValue(new Value[]{IntValue.gen((int) (l >>> 32)), IntValue.gen((int) l)});
	}
	static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
	static Value[] elems(Value v) { return (v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple()).elems; }
	static Value[] values(Value f) {
		if (f instanceof TupleValue) return ((TupleValue) f).elems;
		return ((FcnRcdValue) f.toFcnRcd()).values;
	}

	public static Value RLit(Value s) { return r(Double.parseDouble(((StringValue) s).val.toString())); }
	public static Value RInt(Value k) { return r(((IntValue) k).val); }
	public static Value RAdd(Value a, Value b) { return r(d(a) + d(b)); }
	public static Value RSub(Value a, Value b) { return r(d(a) - d(b)); }
	public static Value RMul(Value a, Value b) { return r(d(a) * d(b)); }
	public static Value RDiv(Value a, Value b) { return r(d(a) / d(b)); }
	public static Value RNeg(Value a) { return r(-d(a)); }
	public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
	public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
	public static Value RMax(Value a, Value b) { return r(Math.max(d(a), d(b))); }
	public static Value RMin(Value a, Value b) { return r(Math.min(d(a), d(b))); }
	public static Value RLt(Value a, Value b) { return b(d(a) < d(b)); }
	public static Value RLe(Value a, Value b) { return b(d(a) <= d(b)); }
	public static Value REq(Value a, Value b) { return b(d(a) == d(b)); }
	public static Value RFinite(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
	static Value sat(double x) { return IntValue.gen(Double.isNaN(x) ? Integer.MIN_VALUE : (int) x); }
	public static Value RFloor(Value a) { return sat(Math.floor(d(a))); }
	public static Value RCeil(Value a) { return sat(Math.ceil(d(a))); }
	public static Value RStr(Value a) { return new StringValue(Double.toString(d(a))); }
	public static Value RRound(Value a, Value k) {
		final double x = d(a);
		if (x == 0 || Double.isNaN(x) || Double.isInfinite(x)) return a;
		return r(new BigDecimal(x).round(new MathContext(((IntValue) k).val, RoundingMode.HALF_EVEN)).doubleValue());
	}
	public static Value RSum(Value f) {
		double s = 0;
		for (final Value v : values(f)) s += d(v);
		return r(s);
	}
	public static Value RMaxOf(Value f) {
		double s = 0;
		for (final Value v : values(f)) { final double x = d(v); if (!(x <= s)) s = x; }
		return r(s);
	}

	static Value vec(double[] x) {
		final Value[] e = new Value[x.length];
		for (int i = 0; i < x.length; i++) e[i] = r(x[i]);
		return new TupleValue(e);
	}
	public static Value VAdd(Value v, Value w) {
		final Value[] a = elems(v), b = elems(w);
		final double[] x = new double[a.length];
		for (int i = 0; i < x.length; i++) x[i] = d(a[i]) + d(b[i]);
		return vec(x);
	}
	public static Value VSub(Value v, Value w) {
		final Value[] a = elems(v), b = elems(w);
		final double[] x = new double[a.length];
		for (int i = 0; i < x.length; i++) x[i] = d(a[i]) - d(b[i]);
		return vec(x);
	}
	public static Value VScale(Value c, Value v) {
		final Value[] a = elems(v);
		final double k = d(c);
		final double[] x = new double[a.length];
		for (int i = 0; i < x.length; i++) x[i] = k * d(a[i]);
		return vec(x);
	}
	static double dot(Value v, Value w) {
		final Value[] a = elems(v), b = elems(w);
		double s = 0;
		for (int i = 0; i < a.length; i++) s += d(a[i]) * d(b[i]);
		return s;
	}
	public static Value VDot(Value v, Value w) { return r(dot(v, w)); }
	public static Value VNorm(Value v) { return r(Math.sqrt(dot(v, v))); }
	public static Value VSum(Value z, Value f) {
		final Value[] a = elems(z);
		final double[] x = new double[a.length];
		for (int i = 0; i < x.length; i++) x[i] = d(a[i]);
		for (final Value v : values(f)) {
			final Value[] e = elems(v);
			for (int i = 0; i < x.length; i++) x[i] += d(e[i]);
		}
		return vec(x);
	}
	public static Value RClose(Value a, Value b, Value tol, Value scale) {
		final double x = d(a), y = d(b);
		return b(Double.doubleToRawLongBits(x) == Double.doubleToRawLongBits(y) || Math.abs(x - y) <= d(tol) * d(scale));
	}
	public static Value VClose(Value v, Value w, Value tol, Value scale) {
		final Value[] a = elems(v), b = elems(w);
		if (a.length != b.length) return BoolValue.ValFalse;
		for (int i = 0; i < a.length; i++)
			if (RClose(a[i], b[i], tol, scale) == BoolValue.ValFalse) return BoolValue.ValFalse;
		return BoolValue.ValTrue;
	}

	// x with A x = b, by Gaussian elimination with partial pivoting (A[i]: function from columns to reals)
	public static Value RSolve(Value A, Value b) {
		final Value[] rows = values(A), rhs = values(b);
		final int n = rows.length;
		final double[][] m = new double[n][n + 1];
		for (int i = 0; i < n; i++) {
			if (rows[i] instanceof TupleValue) {
				final Value[] e = ((TupleValue) rows[i]).elems;
				for (int j = 0; j < e.length; j++) m[i][j] = d(e[j]);
			} else {
				final FcnRcdValue f = (FcnRcdValue) rows[i].toFcnRcd();
				final Value[] dom = f.getDomainAsValues();
				for (int j = 0; j < dom.length; j++) m[i][((IntValue) dom[j]).val - 1] = d(f.values[j]);
			}
			m[i][n] = d(rhs[i]);
		}
		for (int c = 0; c < n; c++) {
			int q = c;
			for (int i = c + 1; i < n; i++) if (Math.abs(m[i][c]) > Math.abs(m[q][c])) q = i;
			final double[] t = m[q]; m[q] = m[c]; m[c] = t;
			for (int i = c + 1; i < n; i++) {
				final double k = m[i][c] / m[c][c];
				if (k != 0) for (int j = c; j <= n; j++) m[i][j] -= k * m[c][j];
			}
		}
		final double[] x = new double[n];
		for (int i = n - 1; i >= 0; i--) {
			double v = m[i][n];
			for (int j = i + 1; j < n; j++) v -= m[i][j] * x[j];
			x[i] = v / m[i][i];
		}
		return vec(x);
	}
}
