import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.Assert;
import util.UniqueString;
import java.util.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;

/**
 * Java realisation of module RealK: IEEE-754 double arithmetic over TLC values, JSON trace
 * input/output and a seeded random source.  It contains no knowledge of rockphypy.
 */
public class RealKImpl {
  static final String M = "RealK";
  static double d(Value x) {
    if (x instanceof RealValue) return ((RealValue) x).v;
    if (x instanceof IntValue) return ((IntValue) x).val;
    Assert.fail("RealK: number expected, got " + x);
    return 0;
  }
  static boolean isNum(Value x) { return x instanceof RealValue || x instanceof IntValue; }
  static Value r(double v) { return new RealValue(v); }
  static Value b(boolean v) { return v ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "+", module = M, warn = false)
  public static Value plus(Value a, Value c) {
    if (a instanceof IntValue && c instanceof IntValue) return IntValue.gen(Math.addExact(((IntValue) a).val, ((IntValue) c).val));
    return r(d(a) + d(c));
  }
  @TLAPlusOperator(identifier = "-", module = M, warn = false)
  public static Value minus(Value a, Value c) {
    if (a instanceof IntValue && c instanceof IntValue) return IntValue.gen(Math.subtractExact(((IntValue) a).val, ((IntValue) c).val));
    return r(d(a) - d(c));
  }
  @TLAPlusOperator(identifier = "*", module = M, warn = false)
  public static Value times(Value a, Value c) {
    if (a instanceof IntValue && c instanceof IntValue) {
      long p = (long) ((IntValue) a).val * ((IntValue) c).val;
      if (p == (int) p) return IntValue.gen((int) p);
      return r((double) p);
    }
    return r(d(a) * d(c));
  }
  @TLAPlusOperator(identifier = "/", module = M, warn = false)
  public static Value div(Value a, Value c) { return r(d(a) / d(c)); }
  @TLAPlusOperator(identifier = "^", module = M, warn = false)
  public static Value pow(Value a, Value c) {
    double x = d(a), y = d(c);
    if (y == 2.0) return r(x * x);
    return r(Math.pow(x, y));
  }
  @TLAPlusOperator(identifier = "-.", module = M, warn = false)
  public static Value neg(Value a) { return a instanceof IntValue ? IntValue.gen(-((IntValue) a).val) : r(-d(a)); }
  @TLAPlusOperator(identifier = "<", module = M, warn = false)
  public static Value lt(Value a, Value c) { return b(d(a) < d(c)); }
  @TLAPlusOperator(identifier = ">", module = M, warn = false)
  public static Value gt(Value a, Value c) { return b(d(a) > d(c)); }
  @TLAPlusOperator(identifier = "\\leq", module = M, warn = false)
  public static Value le(Value a, Value c) { return b(d(a) <= d(c)); }
  @TLAPlusOperator(identifier = "\\geq", module = M, warn = false)
  public static Value ge(Value a, Value c) { return b(d(a) >= d(c)); }
  @TLAPlusOperator(identifier = "..", module = M, warn = false)
  public static Value dotdot(Value a, Value c) { return new IntervalValue(((IntValue) a).val, ((IntValue) c).val); }
  @TLAPlusOperator(identifier = "%", module = M, warn = false)
  public static Value mod(Value a, Value c) { return IntValue.gen(Math.floorMod(((IntValue) a).val, ((IntValue) c).val)); }
  @TLAPlusOperator(identifier = "\\div", module = M, warn = false)
  public static Value idiv(Value a, Value c) { return IntValue.gen(Math.floorDiv(((IntValue) a).val, ((IntValue) c).val)); }

  static final Map<UniqueString, Value> lits = new java.util.concurrent.ConcurrentHashMap<>();
  @TLAPlusOperator(identifier = "R", module = M, warn = false)
  public static Value lit(Value s) {
    UniqueString u = ((StringValue) s).val;
    Value v = lits.get(u);
    if (v == null) { v = r(Double.parseDouble(u.toString())); lits.put(u, v); }
    return v;
  }
  static final Value NANV = new RealValue(Double.NaN), INFV = new RealValue(Double.POSITIVE_INFINITY), PIV = new RealValue(Math.PI);
  @TLAPlusOperator(identifier = "Pi", module = M, warn = false) public static Value pi() { return PIV; }
  @TLAPlusOperator(identifier = "NaN", module = M, warn = false) public static Value nan() { return NANV; }
  @TLAPlusOperator(identifier = "Inf", module = M, warn = false) public static Value inf() { return INFV; }
  @TLAPlusOperator(identifier = "Sqrt", module = M, warn = false) public static Value sqrt(Value a) { return r(Math.sqrt(d(a))); }
  @TLAPlusOperator(identifier = "Cbrt", module = M, warn = false) public static Value cbrt(Value a) { return r(Math.cbrt(d(a))); }
  @TLAPlusOperator(identifier = "Exp", module = M, warn = false) public static Value exp(Value a) { return r(Math.exp(d(a))); }
  @TLAPlusOperator(identifier = "Ln", module = M, warn = false) public static Value ln(Value a) { return r(Math.log(d(a))); }
  @TLAPlusOperator(identifier = "Log10", module = M, warn = false) public static Value log10(Value a) { return r(Math.log10(d(a))); }
  @TLAPlusOperator(identifier = "Sin", module = M, warn = false) public static Value sin(Value a) { return r(Math.sin(d(a))); }
  @TLAPlusOperator(identifier = "Cos", module = M, warn = false) public static Value cos(Value a) { return r(Math.cos(d(a))); }
  @TLAPlusOperator(identifier = "Tan", module = M, warn = false) public static Value tan(Value a) { return r(Math.tan(d(a))); }
  @TLAPlusOperator(identifier = "Asin", module = M, warn = false) public static Value asin(Value a) { return r(Math.asin(d(a))); }
  @TLAPlusOperator(identifier = "Acos", module = M, warn = false) public static Value acos(Value a) { return r(Math.acos(d(a))); }
  @TLAPlusOperator(identifier = "Atan", module = M, warn = false) public static Value atan(Value a) { return r(Math.atan(d(a))); }
  @TLAPlusOperator(identifier = "Atan2", module = M, warn = false) public static Value atan2(Value a, Value c) { return r(Math.atan2(d(a), d(c))); }
  @TLAPlusOperator(identifier = "Cosh", module = M, warn = false) public static Value cosh(Value a) { return r(Math.cosh(d(a))); }
  @TLAPlusOperator(identifier = "Abs", module = M, warn = false) public static Value abs(Value a) { return r(Math.abs(d(a))); }
  @TLAPlusOperator(identifier = "MaxR", module = M, warn = false) public static Value max(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  @TLAPlusOperator(identifier = "MinR", module = M, warn = false) public static Value min(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  @TLAPlusOperator(identifier = "Sinh", module = M, warn = false) public static Value sinh(Value a) { return r(Math.sinh(d(a))); }
  @TLAPlusOperator(identifier = "ToReal", module = M, warn = false) public static Value toReal(Value a) { return r(d(a)); }
  @TLAPlusOperator(identifier = "Trunc", module = M, warn = false) public static Value trunc(Value a) { return IntValue.gen((int) d(a)); }
  @TLAPlusOperator(identifier = "IsNaN", module = M, warn = false) public static Value isNaN(Value a) { return b(Double.isNaN(d(a))); }
  @TLAPlusOperator(identifier = "IsFin", module = M, warn = false) public static Value isFin(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }

  /** |a-b| <= atol + rtol*max(|a|,|b|); NaN is close to NaN only, infinities to themselves only. */
  static boolean close(double x, double y, double rt, double at) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (Double.isInfinite(x) || Double.isInfinite(y)) return x == y;
    return Math.abs(x - y) <= at + rt * Math.max(Math.abs(x), Math.abs(y));
  }
  @TLAPlusOperator(identifier = "Close", module = M, warn = false)
  public static Value closeV(Value a, Value c, Value rt, Value at) {
    if (!isNum(a) || !isNum(c)) return BoolValue.ValFalse;
    return b(close(d(a), d(c), d(rt), d(at)));
  }
  @TLAPlusOperator(identifier = "KindOf", module = M, warn = false)
  public static Value kind(Value a) { return new StringValue(kindS(a)); }
  static String kindS(Value a) {
    if (isNum(a)) return "num";
    if (a instanceof StringValue) return "str";
    if (a instanceof BoolValue) return "bool";
    if (a instanceof TupleValue) return "seq";
    if (a instanceof RecordValue) return "rec";
    if (a instanceof FcnRcdValue || a instanceof FcnLambdaValue) return (a.toTuple() != null) ? "seq" : "rec";
    return "other";
  }
  static Value[] elems(Value a) {
    Value t = a.toTuple();
    if (t == null) Assert.fail("RealK: sequence expected, got " + a);
    return ((TupleValue) t).elems;
  }
  @TLAPlusOperator(identifier = "SumSeq", module = M, warn = false)
  public static Value sumSeq(Value a) { double s = 0; for (Value e : elems(a)) s += d(e); return r(s); }
  @TLAPlusOperator(identifier = "MaxSeq", module = M, warn = false)
  public static Value maxSeq(Value a) { double s = Double.NEGATIVE_INFINITY; for (Value e : elems(a)) s = Math.max(s, d(e)); return r(s); }
  @TLAPlusOperator(identifier = "MinSeq", module = M, warn = false)
  public static Value minSeq(Value a) { double s = Double.POSITIVE_INFINITY; for (Value e : elems(a)) s = Math.min(s, d(e)); return r(s); }

  /** Structural closeness of arbitrary nested values; element tolerance as in Close. */
  static boolean closeT(Value a, Value c, double rt, double at) {
    if (isNum(a) && isNum(c)) return close(d(a), d(c), rt, at);
    String ka = kindS(a), kc = kindS(c);
    if (!ka.equals(kc)) return false;
    switch (ka) {
      case "str": return a.equals(c);
      case "bool": return ((BoolValue) a).val == ((BoolValue) c).val;
      case "seq": {
        Value[] x = elems(a), y = elems(c);
        if (x.length != y.length) return false;
        for (int i = 0; i < x.length; i++) if (!closeT(x[i], y[i], rt, at)) return false;
        return true;
      }
      case "rec": {
        RecordValue x = (RecordValue) a.toRcd(), y = (RecordValue) c.toRcd();
        x.normalize(); y.normalize();
        if (x.names.length != y.names.length) return false;
        for (int i = 0; i < x.names.length; i++) {
          if (!x.names[i].equals(y.names[i])) return false;
          if (!closeT(x.values[i], y.values[i], rt, at)) return false;
        }
        return true;
      }
    }
    return false;
  }
  @TLAPlusOperator(identifier = "CloseT", module = M, warn = false)
  public static Value closeTV(Value a, Value c, Value rt, Value at) { return b(closeT(a, c, d(rt), d(at))); }

  /** A fully evaluated copy of a (possibly lazily represented) nested value. */
  static Value force(Value a) {
    String k = kindS(a);
    if (k.equals("seq")) {
      Value[] x = elems(a), y = new Value[x.length];
      for (int i = 0; i < x.length; i++) y[i] = force(x[i]);
      return new TupleValue(y);
    }
    if (k.equals("rec")) {
      RecordValue x = (RecordValue) a.toRcd();
      if (x == null) return a;
      Value[] y = new Value[x.values.length];
      for (int i = 0; i < y.length; i++) y[i] = force(x.values[i]);
      return new RecordValue(x.names, y, false);
    }
    return a;
  }
  @TLAPlusOperator(identifier = "Force", module = M, warn = false)
  public static Value forceV(Value a) { return force(a); }
  /** Drops every sequence level of length one (numpy.squeeze on nested sequences). */
  static Value squeeze(Value a) {
    if (!kindS(a).equals("seq")) return a;
    Value[] x = elems(a), y = new Value[x.length];
    for (int i = 0; i < x.length; i++) y[i] = squeeze(x[i]);
    return y.length == 1 ? y[0] : new TupleValue(y);
  }
  @TLAPlusOperator(identifier = "Squeeze", module = M, warn = false)
  public static Value squeezeV(Value a) { return squeeze(a); }
  /** All numbers of a nested sequence, in order. */
  static void flat(Value a, List<Value> l) {
    if (kindS(a).equals("seq")) for (Value e : elems(a)) flat(e, l); else l.add(a);
  }
  @TLAPlusOperator(identifier = "Flat", module = M, warn = false)
  public static Value flatV(Value a) { List<Value> l = new ArrayList<>(); flat(a, l); return new TupleValue(l.toArray(new Value[0])); }
  /** The largest absolute value of the finite numbers of a nested sequence (0 when there is none). */
  static double maxAbs(Value a) {
    String k = kindS(a);
    if (k.equals("num")) { double v = Math.abs(d(a)); return Double.isNaN(v) || Double.isInfinite(v) ? 0 : v; }
    double m = 0;
    if (k.equals("seq")) for (Value e : elems(a)) m = Math.max(m, maxAbs(e));
    return m;
  }
  @TLAPlusOperator(identifier = "MaxAbs", module = M, warn = false)
  public static Value maxAbsV(Value a) { return r(maxAbs(a)); }
  /** Every leaf is a finite number (or a boolean / string). */
  static boolean allFin(Value a) {
    String k = kindS(a);
    if (k.equals("num")) { double v = d(a); return !Double.isNaN(v) && !Double.isInfinite(v); }
    if (k.equals("seq")) { for (Value e : elems(a)) if (!allFin(e)) return false; return true; }
    if (k.equals("rec")) { RecordValue x = (RecordValue) a.toRcd(); for (Value e : x.values) if (!allFin(e)) return false; return true; }
    return true;
  }
  @TLAPlusOperator(identifier = "AllFin", module = M, warn = false)
  public static Value allFinV(Value a) { return b(allFin(a)); }
  @TLAPlusOperator(identifier = "SortR", module = M, warn = false)
  public static Value sortR(Value a) {
    Value[] x = elems(a).clone();
    Arrays.sort(x, (p, q) -> Double.compare(d(p), d(q)));
    return new TupleValue(x);
  }

  @TLAPlusOperator(identifier = "ArgSort", module = M, warn = false)
  public static Value argSort(Value a) {
    final Value[] x = elems(a);
    Integer[] ix = new Integer[x.length];
    for (int i = 0; i < ix.length; i++) ix[i] = i;
    Arrays.sort(ix, (p, q) -> Double.compare(d(x[p]), d(x[q])));
    Value[] y = new Value[x.length];
    for (int i = 0; i < y.length; i++) y[i] = IntValue.gen(ix[i] + 1);
    return new TupleValue(y);
  }
  /* ---------------------------------------------------------------- random source ---- */
  static final Random rng = new Random(Long.getLong("vseed", 1L) * 0x9E3779B97F4A7C15L + Long.getLong("vstream", 0L));
  @TLAPlusOperator(identifier = "RandInt", module = M, warn = false, minLevel = 1)
  public static Value randInt(Value lo, Value hi) {
    int a = ((IntValue) lo).val, c = ((IntValue) hi).val;
    return IntValue.gen(a + rng.nextInt(c - a + 1));
  }
  @TLAPlusOperator(identifier = "RandReal", module = M, warn = false, minLevel = 1)
  public static Value randReal(Value lo, Value hi) { double a = d(lo), c = d(hi); return r(a + (c - a) * rng.nextDouble()); }

  /* ---------------------------------------------------------------- JSON ---------------- */
  static void out(Value x, StringBuilder sb) {
    if (x instanceof IntValue) { sb.append(((IntValue) x).val); return; }
    if (x instanceof RealValue) {
      double v = ((RealValue) x).v;
      sb.append(Double.isNaN(v) ? "NaN" : Double.isInfinite(v) ? (v > 0 ? "Infinity" : "-Infinity") : Double.toString(v)); return;
    }
    if (x instanceof BoolValue) { sb.append(((BoolValue) x).val); return; }
    if (x instanceof StringValue) { sb.append('"').append(((StringValue) x).val.toString().replace("\\", "\\\\").replace("\"", "\\\"")).append('"'); return; }
    Value t = x.toTuple();
    if (t != null) {
      sb.append('['); boolean f = true;
      for (Value e : ((TupleValue) t).elems) { if (!f) sb.append(','); f = false; out(e, sb); }
      sb.append(']'); return;
    }
    Value q = x.toRcd();
    if (q != null) {
      RecordValue rec = (RecordValue) q; sb.append('{');
      for (int i = 0; i < rec.names.length; i++) { if (i > 0) sb.append(','); sb.append('"').append(rec.names[i]).append("\":"); out(rec.values[i], sb); }
      sb.append('}'); return;
    }
    Assert.fail("cannot write as JSON: " + x);
  }
  static final Map<String, Writer> files = new HashMap<>();
  @TLAPlusOperator(identifier = "Emit", module = M, warn = false, minLevel = 1)
  public static synchronized Value emit(Value path, Value v) {
    try {
      String p = ((StringValue) path).val.toString();
      Writer w = files.get(p);
      if (w == null) {
        w = new BufferedWriter(new OutputStreamWriter(new FileOutputStream(p), StandardCharsets.UTF_8), 1 << 16);
        files.put(p, w);
        final Writer fw = w;
        Runtime.getRuntime().addShutdownHook(new Thread(() -> { try { fw.flush(); fw.close(); } catch (IOException e) { } }));
      }
      StringBuilder sb = new StringBuilder(); out(v, sb); sb.append('\n'); w.write(sb.toString());
      return BoolValue.ValTrue;
    } catch (IOException e) { throw new RuntimeException(e); }
  }
  @TLAPlusOperator(identifier = "Prop", module = M, warn = false)
  public static Value prop(Value name, Value dflt) {
    String s = System.getProperty(((StringValue) name).val.toString());
    return s == null ? dflt : new StringValue(s);
  }
  @TLAPlusOperator(identifier = "PropInt", module = M, warn = false)
  public static Value propInt(Value name, Value dflt) {
    String s = System.getProperty(((StringValue) name).val.toString());
    return s == null ? dflt : IntValue.gen(Integer.parseInt(s));
  }
  static final Map<String, Value> kept = new java.util.concurrent.ConcurrentHashMap<>();
  @TLAPlusOperator(identifier = "Keep", module = M, warn = false)
  public static Value keep(Value name, Value v) {
    kept.put(((StringValue) name).val.toString(), force(v));
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "Kept", module = M, warn = false, minLevel = 1)
  public static Value keptV(Value name) { return kept.get(((StringValue) name).val.toString()); }
  static final Map<String, Value> loaded = new HashMap<>();
  @TLAPlusOperator(identifier = "LoadTrace", module = M, warn = false)
  public static synchronized Value load(Value path) {
    String p = ((StringValue) path).val.toString();
    Value got = loaded.get(p);
    if (got != null) return got;
    try {
      List<Value> vs = new ArrayList<>();
      for (String line : Files.readAllLines(Paths.get(p), StandardCharsets.UTF_8)) {
        if (line.isEmpty()) continue;
        vs.add(new P(line).value());
      }
      Value t = new TupleValue(vs.toArray(new Value[0]));
      loaded.put(p, t);
      return t;
    } catch (IOException e) { throw new RuntimeException(e); }
  }
  static final class P {
    final String s; int i = 0;
    P(String s) { this.s = s; }
    void ws() { while (i < s.length() && Character.isWhitespace(s.charAt(i))) i++; }
    Value value() {
      ws(); char c = s.charAt(i);
      if (c == '[') {
        i++; List<Value> l = new ArrayList<>(); ws();
        if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
        while (true) { l.add(value()); ws(); if (s.charAt(i++) == ']') break; }
        return new TupleValue(l.toArray(new Value[0]));
      }
      if (c == '{') {
        i++; List<UniqueString> n = new ArrayList<>(); List<Value> l = new ArrayList<>(); ws();
        if (s.charAt(i) == '}') { i++; return RecordValue.EmptyRcd; }
        while (true) {
          ws(); String k = str(); ws(); i++; n.add(UniqueString.uniqueStringOf(k)); l.add(value()); ws();
          if (s.charAt(i++) == '}') break;
        }
        Value rv = new RecordValue(n.toArray(new UniqueString[0]), l.toArray(new Value[0]), false);
        rv.normalize(); return rv;
      }
      if (c == '"') return new StringValue(str());
      int st = i;
      while (i < s.length() && ",]}: ".indexOf(s.charAt(i)) < 0) i++;
      String t = s.substring(st, i);
      switch (t) {
        case "true": return BoolValue.ValTrue;
        case "false": return BoolValue.ValFalse;
        case "null": return new StringValue("None");
        case "NaN": return NANV;
        case "Infinity": return INFV;
        case "-Infinity": return r(Double.NEGATIVE_INFINITY);
      }
      if (t.indexOf('.') < 0 && t.indexOf('e') < 0 && t.indexOf('E') < 0) {
        long v = Long.parseLong(t);
        if (v == (int) v) return IntValue.gen((int) v);
        return r((double) v);
      }
      return r(Double.parseDouble(t));
    }
    String str() {
      StringBuilder sb = new StringBuilder(); i++;
      while (s.charAt(i) != '"') {
        if (s.charAt(i) == '\\') {
          i++; char c = s.charAt(i);
          if (c == 'n') sb.append(' '); else if (c == 'u') { sb.append('?'); i += 4; } else sb.append(c);
        } else sb.append(s.charAt(i));
        i++;
      }
      i++; return sb.toString();
    }
  }
}
