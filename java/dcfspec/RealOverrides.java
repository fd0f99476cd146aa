package dcfspec;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/**
 * Interpretation of the constants of module RealNum for TLC.
 *
 * A real number is a decimal numeral kept as a TLA+ string.  This class is the
 * only part of the checking machinery that is not TLA+: it interprets the field
 * operations, order, exp, ln and sqrt with 40 significant digits.  Undefined
 * values are "nan", which compares with nothing.  It contains
 * no knowledge whatsoever about curves, cashflows or dcf.  Its own laws are
 * checked by RealNumTest.tla.
 */
public class RealOverrides implements ITLCOverrides {
    static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    static final MathContext W = new MathContext(56, RoundingMode.HALF_EVEN);
    static final BigDecimal TWO = BigDecimal.valueOf(2);
    static final BigDecimal LN2 = lnSeries(TWO);
    static final ConcurrentHashMap<String, BigDecimal> EXP = new ConcurrentHashMap<>();
    static final ConcurrentHashMap<String, BigDecimal> LN = new ConcurrentHashMap<>();

    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { RealOverrides.class };
    }

    static final Value NAN = new StringValue("nan");

    static BigDecimal num(final Value v) {
        if (v instanceof StringValue) {
            final String s = ((StringValue) v).val.toString();
            final char c = s.isEmpty() ? 'x' : s.charAt(s.length() - 1);
            if (c < '0' || c > '9') {
                return null;
            }
            return new BigDecimal(s);
        }
        if (v instanceof IntValue) {
            return BigDecimal.valueOf(((IntValue) v).val);
        }
        throw new IllegalArgumentException("RealNum: not a real: " + v);
    }

    static Value str(final BigDecimal b) {
        if (b == null) {
            return NAN;
        }
        final BigDecimal r = b.round(MC);
        if (r.signum() == 0) {
            return new StringValue("0");
        }
        final BigDecimal s = r.stripTrailingZeros();
        final int sc = s.scale();
        return new StringValue(sc < 45 && sc > -25 ? s.toPlainString() : s.toString());
    }

    static BigDecimal lnSeries(final BigDecimal x) {
        // 2 atanh((x-1)/(x+1)), x near 1..2
        final BigDecimal t = x.subtract(BigDecimal.ONE).divide(x.add(BigDecimal.ONE), W);
        final BigDecimal t2 = t.multiply(t, W);
        BigDecimal p = t, sum = t;
        for (int k = 3; k < 2000; k += 2) {
            p = p.multiply(t2, W);
            final BigDecimal d = p.divide(BigDecimal.valueOf(k), W);
            if (d.signum() == 0 || d.abs().compareTo(sum.abs().scaleByPowerOfTen(-58)) < 0) {
                break;
            }
            sum = sum.add(d, W);
        }
        return sum.multiply(TWO, W);
    }

    static BigDecimal ln(final BigDecimal x) {
        if (x.signum() <= 0) {
            throw new IllegalArgumentException("RealNum: ln of non positive " + x);
        }
        // x = m * 2^k with m in [~0.7, ~1.4]
        final double l2 = Math.log(x.unscaledValue().doubleValue() == Double.POSITIVE_INFINITY ? 1 : x.unscaledValue().doubleValue()) / Math.log(2)
                - x.scale() * (Math.log(10) / Math.log(2));
        final int k = (int) Math.round(l2);
        final BigDecimal p = k >= 0 ? TWO.pow(k, W) : BigDecimal.ONE.divide(TWO.pow(-k, W), W);
        BigDecimal m = x.divide(p, W);
        // two square roots bring m close to one
        m = m.sqrt(W).sqrt(W);
        return lnSeries(m).multiply(BigDecimal.valueOf(4), W).add(LN2.multiply(BigDecimal.valueOf(k), W), W);
    }

    static BigDecimal exp(final BigDecimal x) {
        if (x.abs().compareTo(BigDecimal.valueOf(100000)) > 0) {
            if (x.signum() < 0) {
                return BigDecimal.ZERO;
            }
            throw new IllegalArgumentException("RealNum: exp overflow " + x);
        }
        final int k = x.divide(LN2, W).setScale(0, RoundingMode.HALF_EVEN).intValueExact();
        final BigDecimal r = x.subtract(LN2.multiply(BigDecimal.valueOf(k), W), W)
                .divide(BigDecimal.valueOf(256), W);
        BigDecimal t = BigDecimal.ONE, sum = BigDecimal.ONE;
        for (int i = 1; i < 200; i++) {
            t = t.multiply(r, W).divide(BigDecimal.valueOf(i), W);
            if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-60")) < 0) {
                break;
            }
            sum = sum.add(t, W);
        }
        for (int i = 0; i < 8; i++) {
            sum = sum.multiply(sum, W);
        }
        final BigDecimal p = k >= 0 ? TWO.pow(k, W) : BigDecimal.ONE.divide(TWO.pow(-k, W), W);
        return sum.multiply(p, W);
    }

    @TLAPlusOperator(identifier = "Add", module = "RealNum", warn = false)
    public static Value add(final Value a, final Value b) {
        final BigDecimal x = num(a), y = num(b);
        return x == null || y == null ? NAN : str(x.add(y));
    }

    @TLAPlusOperator(identifier = "Sub", module = "RealNum", warn = false)
    public static Value sub(final Value a, final Value b) {
        final BigDecimal x = num(a), y = num(b);
        return x == null || y == null ? NAN : str(x.subtract(y));
    }

    @TLAPlusOperator(identifier = "Mul", module = "RealNum", warn = false)
    public static Value mul(final Value a, final Value b) {
        final BigDecimal x = num(a), y = num(b);
        return x == null || y == null ? NAN : str(x.multiply(y));
    }

    @TLAPlusOperator(identifier = "Div", module = "RealNum", warn = false)
    public static Value div(final Value a, final Value b) {
        final BigDecimal x = num(a), y = num(b);
        return x == null || y == null || y.signum() == 0 ? NAN : str(x.divide(y, MC));
    }

    @TLAPlusOperator(identifier = "Neg", module = "RealNum", warn = false)
    public static Value neg(final Value a) {
        final BigDecimal x = num(a);
        return x == null ? NAN : str(x.negate());
    }

    @TLAPlusOperator(identifier = "Abs", module = "RealNum", warn = false)
    public static Value abs(final Value a) {
        final BigDecimal x = num(a);
        return x == null ? NAN : str(x.abs());
    }

    @TLAPlusOperator(identifier = "Exp", module = "RealNum", warn = false)
    public static Value expV(final Value a) {
        final BigDecimal x = num(a);
        if (x == null || x.compareTo(BigDecimal.valueOf(100000)) > 0) {
            return NAN;
        }
        return str(EXP.computeIfAbsent(x.toString(), s -> exp(x)));
    }

    @TLAPlusOperator(identifier = "Ln", module = "RealNum", warn = false)
    public static Value lnV(final Value a) {
        final BigDecimal x = num(a);
        if (x == null || x.signum() <= 0) {
            return NAN;
        }
        return str(LN.computeIfAbsent(x.toString(), s -> ln(x)));
    }

    @TLAPlusOperator(identifier = "Sqrt", module = "RealNum", warn = false)
    public static Value sqrtV(final Value a) {
        final BigDecimal x = num(a);
        return x == null || x.signum() < 0 ? NAN : str(x.sqrt(W));
    }

    @TLAPlusOperator(identifier = "Real", module = "RealNum", warn = false)
    public static Value real(final Value a) { return str(num(a)); }

    @TLAPlusOperator(identifier = "ToInt", module = "RealNum", warn = false)
    public static Value toInt(final Value a) {
        return IntValue.gen(num(a).setScale(0, RoundingMode.FLOOR).intValueExact());
    }

    @TLAPlusOperator(identifier = "Tuple", module = "RealNum", warn = false)
    public static Value tuple(final Value a) {
        final Value t = a.toTuple();
        if (t == null) {
            throw new IllegalArgumentException("RealNum: not a sequence: " + a);
        }
        return t;
    }

    @TLAPlusOperator(identifier = "Lt", module = "RealNum", warn = false)
    public static Value lt(final Value a, final Value b) {
        final BigDecimal x = num(a), y = num(b);
        return x != null && y != null && x.compareTo(y) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "Le", module = "RealNum", warn = false)
    public static Value le(final Value a, final Value b) {
        final BigDecimal x = num(a), y = num(b);
        return x != null && y != null && x.compareTo(y) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "Eq", module = "RealNum", warn = false)
    public static Value eq(final Value a, final Value b) {
        final BigDecimal x = num(a), y = num(b);
        return x != null && y != null && x.compareTo(y) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
