package fv;

import com.google.gson.*;
import java.io.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** Java implementations of the operators of module Rat (their TLA+ definitions are in spec/Rat.tla). */
public final class RatOps {
    private static RatValue r(Value v) {
        if (v instanceof RatValue) return (RatValue) v;
        if (v instanceof IntValue) return RatValue.of(((IntValue) v).val);
        throw new RuntimeException("rational expected, got " + v);
    }
    private static Value[] seq(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("sequence expected, got " + v);
        return ((TupleValue) t).elems;
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "RI", module = "Rat", warn = false)
    public static Value ri(final Value a) { return r(a); }
    @TLAPlusOperator(identifier = "RQ", module = "Rat", warn = false)
    public static Value rq(final Value a, final Value c) { return r(a).div(r(c)); }
    @TLAPlusOperator(identifier = "RS", module = "Rat", warn = false)
    public static Value rs(final Value s) { return RatValue.parse(((StringValue) s).val.toString()); }
    @TLAPlusOperator(identifier = "RPow2", module = "Rat", warn = false)
    public static Value rpow2(final Value a) { return RatValue.make(BigInteger.ONE, ((IntValue) a).val, BigInteger.ONE); }
    @TLAPlusOperator(identifier = "IsRat", module = "Rat", warn = false)
    public static Value isRat(final Value a) { return b(a instanceof RatValue); }
    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value add(final Value a, final Value c) { return r(a).add(r(c)); }
    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value sub(final Value a, final Value c) { return r(a).sub(r(c)); }
    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value mul(final Value a, final Value c) { return r(a).mul(r(c)); }
    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value div(final Value a, final Value c) { return r(a).div(r(c)); }
    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value neg(final Value a) { return r(a).neg(); }
    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value abs(final Value a) { return r(a).abs(); }
    @TLAPlusOperator(identifier = "RSgn", module = "Rat", warn = false)
    public static Value sgn(final Value a) { return IntValue.gen(r(a).signum()); }
    @TLAPlusOperator(identifier = "RLeq", module = "Rat", warn = false)
    public static Value leq(final Value a, final Value c) { return b(r(a).cmp(r(c)) <= 0); }
    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value lt(final Value a, final Value c) { return b(r(a).cmp(r(c)) < 0); }
    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value floor(final Value a) { return IntValue.gen(r(a).floor().intValueExact()); }
    @TLAPlusOperator(identifier = "RRound", module = "Rat", warn = false)
    public static Value round(final Value a, final Value bits) { return r(a).round(((IntValue) bits).val); }
    @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
    public static Value sum(final Value a) {
        RatValue s = RatValue.ZERO;
        for (Value v : seq(a)) s = s.add(r(v));
        return s;
    }
    @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
    public static Value dot(final Value a, final Value c) {
        Value[] x = seq(a), y = seq(c);
        if (x.length != y.length) throw new RuntimeException("RDot: lengths " + x.length + " and " + y.length);
        RatValue s = RatValue.ZERO;
        for (int i = 0; i < x.length; i++) s = s.add(r(x[i]).mul(r(y[i])));
        return s;
    }
    @TLAPlusOperator(identifier = "VMul", module = "Rat", warn = false)
    public static Value vmul(final Value a, final Value c) {
        Value[] x = seq(a), y = seq(c), z = new Value[x.length];
        if (x.length != y.length) throw new RuntimeException("VMul: lengths " + x.length + " and " + y.length);
        for (int i = 0; i < x.length; i++) z[i] = r(x[i]).mul(r(y[i]));
        return new TupleValue(z);
    }
    @TLAPlusOperator(identifier = "VAdd", module = "Rat", warn = false)
    public static Value vadd(final Value a, final Value c) {
        Value[] x = seq(a), y = seq(c), z = new Value[x.length];
        if (x.length != y.length) throw new RuntimeException("VAdd: lengths " + x.length + " and " + y.length);
        for (int i = 0; i < x.length; i++) z[i] = r(x[i]).add(r(y[i]));
        return new TupleValue(z);
    }
    @TLAPlusOperator(identifier = "VScale", module = "Rat", warn = false)
    public static Value vscale(final Value k, final Value a) {
        Value[] x = seq(a), z = new Value[x.length];
        RatValue q = r(k);
        for (int i = 0; i < x.length; i++) z[i] = q.mul(r(x[i]));
        return new TupleValue(z);
    }
    @TLAPlusOperator(identifier = "VRound", module = "Rat", warn = false)
    public static Value vround(final Value a, final Value bits) {
        Value[] x = seq(a), z = new Value[x.length];
        for (int i = 0; i < x.length; i++) z[i] = r(x[i]).round(((IntValue) bits).val);
        return new TupleValue(z);
    }
    @TLAPlusOperator(identifier = "RRoot", module = "Rat", warn = false)
    public static Value root(final Value a, final Value k, final Value bits) { return r(a).root(((IntValue) k).val, ((IntValue) bits).val); }
    @TLAPlusOperator(identifier = "RExp", module = "Rat", warn = false)
    public static Value exp(final Value a, final Value bits) { return r(a).exp(((IntValue) bits).val); }
    /** polynomial (coefficients from the constant upwards) at a point */
    @TLAPlusOperator(identifier = "PEval", module = "Rat", warn = false)
    public static Value peval(final Value p, final Value x) {
        Value[] c = seq(p);
        RatValue s = RatValue.ZERO, q = r(x);
        for (int i = c.length - 1; i >= 0; i--) s = s.mul(q).add(r(c[i]));
        return s;
    }
    private static boolean isSeq(Value v) {
        return v instanceof TupleValue || v instanceof FcnRcdValue || v instanceof FcnLambdaValue;
    }
    private static boolean close(Value a, Value c, RatValue tol) {
        if (a instanceof RatValue || a instanceof IntValue) {
            if (!(c instanceof RatValue || c instanceof IntValue)) return false;
            return r(a).sub(r(c)).abs().cmp(tol) <= 0;
        }
        if (!isSeq(a) || !isSeq(c)) return false;
        Value ta = a.toTuple(), tc = c.toTuple();
        if (ta == null || tc == null) return false;
        Value[] x = ((TupleValue) ta).elems, y = ((TupleValue) tc).elems;
        if (x.length != y.length) return false;
        for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], tol)) return false;
        return true;
    }
    @TLAPlusOperator(identifier = "AllClose", module = "Rat", warn = false)
    public static Value allClose(final Value a, final Value c, final Value tol) { return b(close(a, c, r(tol))); }
    private static boolean rel(Value a, Value c, RatValue rel, RatValue abs) {
        if (a instanceof RatValue && c instanceof RatValue) {
            RatValue x = (RatValue) a, y = (RatValue) c;
            RatValue d = x.sub(y).abs();
            return d.signum() == 0 || d.cmp(y.abs().mul(rel).add(abs)) <= 0;
        }
        if (!isSeq(a) || !isSeq(c)) return false;
        Value[] x = seq(a), y = seq(c);
        if (x.length != y.length) return false;
        for (int i = 0; i < x.length; i++) if (!rel(x[i], y[i], rel, abs)) return false;
        return true;
    }
    @TLAPlusOperator(identifier = "AllRel", module = "Rat", warn = false)
    public static Value allRel(final Value a, final Value c, final Value rel, final Value abs) { return b(rel(a, c, r(rel), r(abs))); }
    private static RatValue maxAbs(Value a, RatValue m) {
        if (a instanceof RatValue || a instanceof IntValue) { RatValue q = r(a).abs(); return q.cmp(m) > 0 ? q : m; }
        if (isSeq(a)) { for (Value v : seq(a)) m = maxAbs(v, m); }
        return m;
    }
    @TLAPlusOperator(identifier = "MaxAbs", module = "Rat", warn = false)
    public static Value maxAbs(final Value a) { return maxAbs(a, RatValue.ZERO); }
    private static boolean allRat(Value a) {
        if (a instanceof RatValue) return true;
        if (!isSeq(a)) return false;
        Value t = a.toTuple();
        if (t == null) return false;
        for (Value v : ((TupleValue) t).elems) if (!allRat(v)) return false;
        return true;
    }
    @TLAPlusOperator(identifier = "AllRat", module = "Rat", warn = false)
    public static Value allRatOp(final Value a) { return b(allRat(a)); }
    private static boolean isArr(Value a, Value[] dims, int k) {
        if (k == dims.length) return a instanceof RatValue;
        if (!isSeq(a)) return false;
        Value t = a.toTuple();
        if (t == null) return false;
        Value[] x = ((TupleValue) t).elems;
        if (x.length != ((IntValue) dims[k]).val) return false;
        for (Value v : x) if (!isArr(v, dims, k + 1)) return false;
        return true;
    }
    @TLAPlusOperator(identifier = "IsArr", module = "Rat", warn = false)
    public static Value isArrOp(final Value a, final Value dims) { return b(isArr(a, seq(dims), 0)); }
    @TLAPlusOperator(identifier = "RFloat", module = "Rat", warn = false)
    public static Value rfloat(final Value a) {
        return new StringValue(Double.toString(r(a).toDouble()));
    }

    // ---------------------------------------------------------------- traces
    private static Value conv(JsonElement j) {
        if (j.isJsonNull()) return new StringValue("null");
        if (j.isJsonArray()) {
            JsonArray a = j.getAsJsonArray();
            Value[] v = new Value[a.size()];
            for (int i = 0; i < v.length; i++) v[i] = conv(a.get(i));
            return new TupleValue(v);
        }
        if (j.isJsonObject()) {
            List<UniqueString> k = new ArrayList<>();
            List<Value> v = new ArrayList<>();
            for (Map.Entry<String, JsonElement> e : j.getAsJsonObject().entrySet()) {
                k.add(UniqueString.uniqueStringOf(e.getKey()));
                v.add(conv(e.getValue()));
            }
            return new RecordValue(k.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
        }
        JsonPrimitive p = j.getAsJsonPrimitive();
        if (p.isBoolean()) return b(p.getAsBoolean());
        if (p.isNumber()) {
            long x = p.getAsBigDecimal().longValueExact();
            if (x != (int) x) return RatValue.of(x);
            return IntValue.gen((int) x);
        }
        String s = p.getAsString();
        if (s.startsWith("0x") || s.startsWith("-0x")) return RatValue.of(Double.parseDouble(s));
        if (s.startsWith("q:")) return RatValue.parse(s.substring(2));
        return new StringValue(s);
    }
    @TLAPlusOperator(identifier = "LoadTrace", module = "Rat", warn = false)
    public static Value loadTrace(final Value file) throws IOException {
        List<Value> ls = new ArrayList<>();
        try (BufferedReader in = new BufferedReader(new InputStreamReader(
                new FileInputStream(((StringValue) file).val.toString()), StandardCharsets.UTF_8))) {
            String line;
            while ((line = in.readLine()) != null) if (!line.isEmpty()) ls.add(conv(JsonParser.parseString(line)));
        }
        return new TupleValue(ls.toArray(new Value[0]));
    }
}
