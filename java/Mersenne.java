// TLC module override for spec/Mersenne.tla: same operators, big integers instead of limb loops.
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

public class Mersenne {
  static final int LB = 13;
  static final ConcurrentHashMap<Integer, BigInteger> PS = new ConcurrentHashMap<>();
  static final ConcurrentHashMap<Key, BigInteger[]> LAGS = new ConcurrentHashMap<>();
  static final class Key {
    final int[] a; final int h;
    Key(int kind, int e, int x, Value[] q) {
      a = new int[q.length + 3];
      a[0] = kind; a[1] = e; a[2] = x;
      for (int i = 0; i < q.length; i++) a[i + 3] = in(q[i]);
      h = java.util.Arrays.hashCode(a);
    }
    public int hashCode() { return h; }
    public boolean equals(Object o) { return java.util.Arrays.equals(a, ((Key) o).a); }
  }

  static BigInteger p(int e) {
    return PS.computeIfAbsent(e, k -> BigInteger.ONE.shiftLeft(k).subtract(BigInteger.ONE));
  }
  static int in(Value v) { return ((IntValue) v).val; }
  static Value[] elems(Value v) { return ((TupleValue) v.toTuple()).elems; }
  static BigInteger big(Value v) {
    Value[] es = elems(v);
    if (es.length <= 4) {
      long r = 0;
      for (int i = es.length - 1; i >= 0; i--) r = (r << LB) + in(es[i]);
      return BigInteger.valueOf(r);
    }
    BigInteger r = BigInteger.ZERO;
    int i = es.length;
    while (i > 0) {
      int take = Math.min(4, i);
      long c = 0;
      for (int j = 0; j < take; j++) c = (c << LB) + in(es[i - 1 - j]);
      r = r.shiftLeft(LB * take).add(BigInteger.valueOf(c));
      i -= take;
    }
    return r;
  }
  static Value limbs(int e, BigInteger b) {
    int n = (e + LB - 1) / LB;
    Value[] out = new Value[n];
    int i = 0;
    while (i < n) {
      long c = b.longValue() & ((1L << (4 * LB)) - 1);
      for (int j = 0; j < 4 && i < n; j++, i++) { out[i] = IntValue.gen((int) (c & 8191)); c >>= LB; }
      b = b.shiftRight(4 * LB);
    }
    return new TupleValue(out);
  }
  static BigInteger red(int e, BigInteger b) { return b.mod(p(e)); }

  public static Value MNorm(final Value e, final Value d) { return limbs(in(e), red(in(e), big(d))); }
  public static Value MAdd(final Value e, final Value a, final Value b) {
    return limbs(in(e), red(in(e), big(a).add(big(b))));
  }
  public static Value MSub(final Value e, final Value a, final Value b) {
    return limbs(in(e), red(in(e), big(a).subtract(big(b))));
  }
  public static Value MNeg(final Value e, final Value a) { return limbs(in(e), red(in(e), big(a).negate())); }
  public static Value MMul(final Value e, final Value a, final Value b) {
    return limbs(in(e), red(in(e), big(a).multiply(big(b))));
  }
  public static Value MInv(final Value e, final Value a) {
    BigInteger p = p(in(e));
    return limbs(in(e), big(a).modPow(p.subtract(BigInteger.TWO), p));
  }
  public static Value MFromInt(final Value e, final Value i) {
    return limbs(in(e), red(in(e), BigInteger.valueOf(in(i))));
  }
  public static Value MDot(final Value e, final Value cs, final Value vs) {
    Value[] c = elems(cs), v = elems(vs);
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < c.length; i++) r = r.add(big(c[i]).multiply(big(v[i])));
    return limbs(in(e), red(in(e), r));
  }
  static BigInteger[] lag(int e, Value xs, Value x) {
    return lagq(e, elems(xs), in(x));
  }
  static BigInteger[] lagq(int e, Value[] q, int x) {
    return LAGS.computeIfAbsent(new Key(0, e, x, q), k -> {
      BigInteger p = p(e);
      BigInteger[] out = new BigInteger[q.length];
      for (int j = 0; j < q.length; j++) {
        BigInteger num = BigInteger.ONE, den = BigInteger.ONE;
        for (int m = 0; m < q.length; m++) {
          if (m == j) continue;
          num = num.multiply(BigInteger.valueOf((long) x - in(q[m]))).mod(p);
          den = den.multiply(BigInteger.valueOf((long) in(q[j]) - in(q[m]))).mod(p);
        }
        out[j] = num.multiply(den.modPow(p.subtract(BigInteger.TWO), p)).mod(p);
      }
      return out;
    });
  }
  public static Value MLag(final Value e, final Value xs, final Value x) {
    BigInteger[] l = lag(in(e), xs, x);
    Value[] out = new Value[l.length];
    for (int i = 0; i < l.length; i++) out[i] = limbs(in(e), l[i]);
    return new TupleValue(out);
  }
  public static Value MLeadW(final Value e, final Value xs) {
    final int ee = in(e);
    final Value[] q = elems(xs);
    BigInteger[] l = LAGS.computeIfAbsent(new Key(1, ee, 0, q), k -> {
      BigInteger p = p(ee);
      BigInteger[] out = new BigInteger[q.length];
      for (int j = 0; j < q.length; j++) {
        BigInteger den = BigInteger.ONE;
        for (int m = 0; m < q.length; m++)
          if (m != j) den = den.multiply(BigInteger.valueOf((long) in(q[j]) - in(q[m]))).mod(p);
        out[j] = den.modPow(p.subtract(BigInteger.TWO), p);
      }
      return out;
    });
    Value[] out = new Value[l.length];
    for (int i = 0; i < l.length; i++) out[i] = limbs(ee, l[i]);
    return new TupleValue(out);
  }
  public static Value MInterp(final Value e, final Value xs, final Value ys, final Value x) {
    BigInteger[] l = lag(in(e), xs, x);
    Value[] v = elems(ys);
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < l.length; i++) r = r.add(l[i].multiply(big(v[i])));
    return limbs(in(e), red(in(e), r));
  }
  public static Value MPow(final Value e, final Value a, final Value k) {
    return limbs(in(e), big(a).modPow(BigInteger.valueOf(in(k)), p(in(e))));
  }
  static final ConcurrentHashMap<Integer, Value[]> PTS = new ConcurrentHashMap<>();
  static Value[] pts(int n) {
    return PTS.computeIfAbsent(n, k -> {
      Value[] out = new Value[k];
      for (int i = 0; i < k; i++) out[i] = IntValue.gen(i + 1);
      return out;
    });
  }
  static BigInteger at(int e, Value[] v, int len, int x) {
    BigInteger[] l = lagq(e, pts(len), x);
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < len; i++) r = r.add(l[i].multiply(big(v[i])));
    return red(e, r);
  }
  public static Value MAt(final Value e, final Value ys, final Value x) {
    Value[] v = elems(ys);
    return limbs(in(e), at(in(e), v, v.length, in(x)));
  }
  public static Value MDegLe(final Value e, final Value ys, final Value d) {
    Value[] v = elems(ys);
    int dd = in(d), ee = in(e);
    for (int j = Math.max(dd, -1) + 1; j < v.length; j++)
      if (!big(v[j]).equals(dd < 0 ? BigInteger.ZERO : at(ee, v, dd + 1, j + 1))) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value MFlat(final Value ss) {
    java.util.ArrayList<Value> out = new java.util.ArrayList<>();
    for (Value s : elems(ss)) for (Value v : elems(s)) out.add(v);
    return new TupleValue(out.toArray(new Value[0]));
  }
  public static Value MDistinct(final Value s) {
    java.util.HashSet<String> h = new java.util.HashSet<>();
    for (Value v : elems(s)) {
      StringBuilder b = new StringBuilder();
      for (Value d : elems(v)) b.append(in(d)).append(',');
      if (!h.add(b.toString())) return BoolValue.ValFalse;
    }
    return BoolValue.ValTrue;
  }
  public static Value MRank(final Value e, final Value rows) {
    int ee = in(e);
    BigInteger p = p(ee);
    Value[] rs = elems(rows);
    BigInteger[][] m = new BigInteger[rs.length][];
    for (int i = 0; i < rs.length; i++) {
      Value[] r = elems(rs[i]);
      m[i] = new BigInteger[r.length];
      for (int j = 0; j < r.length; j++) m[i][j] = big(r[j]);
    }
    int rank = 0;
    for (int c = 0; m.length > 0 && c < m[0].length && rank < m.length; c++) {
      int pv = rank;
      while (pv < m.length && m[pv][c].signum() == 0) pv++;
      if (pv == m.length) continue;
      BigInteger[] t = m[pv]; m[pv] = m[rank]; m[rank] = t;
      BigInteger iv = t[c].modPow(p.subtract(BigInteger.TWO), p);
      for (int i = rank + 1; i < m.length; i++) {
        if (m[i][c].signum() == 0) continue;
        BigInteger f = m[i][c].multiply(iv).mod(p);
        for (int j = c; j < t.length; j++) m[i][j] = m[i][j].subtract(f.multiply(t[j])).mod(p);
      }
      rank++;
    }
    return IntValue.gen(rank);
  }
  // evaluates every lazily represented function inside a value
  public static Value MDeep(final Value v) {
    if (v instanceof FcnLambdaValue) {
      Value r = (Value) v.toTuple();
      if (r == null) r = (Value) v.toFcnRcd();
      return MDeep(r);
    }
    Value[] es = v instanceof TupleValue ? ((TupleValue) v).elems
               : v instanceof RecordValue ? ((RecordValue) v).values
               : v instanceof FcnRcdValue ? ((FcnRcdValue) v).values : null;
    if (es != null)
      for (int i = 0; i < es.length; i++)
        if (!(es[i] instanceof IntValue)) { Value d = MDeep(es[i]); if (d != es[i]) es[i] = d; }
    return v;
  }
}
