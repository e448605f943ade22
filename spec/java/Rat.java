/*
 * Java implementation of the operators of module Rat.tla (see there).  Values are TLA+ strings in
 * canonical form "p" or "p/q" with q > 1, gcd(p, q) = 1, so that equality of rationals is equality
 * of strings.  TLC loads this class as a module override because its name is the module's name.
 */
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

public class Rat {
    /* "nan", "inf", ...: arithmetic gives "nan", comparisons give FALSE */
    private static final class NotANumber extends RuntimeException {
        private static final long serialVersionUID = 1L;
    }

    private static final Value NAN = new StringValue("nan");

    private static BigInteger[] p(final Value v) {
        if (v instanceof IntValue) {
            return new BigInteger[] {BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE};
        }
        final UniqueString u = ((StringValue) v).val;
        final BigInteger[] known = CACHE.get(u);
        if (known != null) {
            return known;
        }
        final BigInteger[] r = parse(u.toString());
        remember(u, r);
        return r;
    }

    /* values that were computed or parsed before; the arrays are never modified */
    private static final ConcurrentHashMap<UniqueString, BigInteger[]> CACHE = new ConcurrentHashMap<>();

    private static void remember(final UniqueString u, final BigInteger[] r) {
        if (CACHE.size() > 300000) {
            CACHE.clear();
        }
        CACHE.put(u, r);
    }

    private static BigInteger[] parse(final String s) {
        if (s.length() == 0 || s.endsWith("nan") || s.endsWith("inf") || s.endsWith("none")) {
            throw new NotANumber();
        }
        final int k = s.indexOf('/');
        if (k >= 0) {
            return norm(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
        }
        if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0 || s.indexOf('E') >= 0) {
            final BigDecimal d = new BigDecimal(s);
            if (d.scale() >= 0) {
                return norm(d.unscaledValue(), BigInteger.TEN.pow(d.scale()));
            }
            return norm(d.unscaledValue().multiply(BigInteger.TEN.pow(-d.scale())), BigInteger.ONE);
        }
        return new BigInteger[] {new BigInteger(s), BigInteger.ONE};
    }

    private static BigInteger[] norm(BigInteger n, BigInteger d) {
        if (d.signum() == 0) {
            throw new ArithmeticException("division by zero in Rat");
        }
        if (d.signum() < 0) {
            n = n.negate();
            d = d.negate();
        }
        final BigInteger g = n.gcd(d);
        if (g.signum() != 0 && !g.equals(BigInteger.ONE)) {
            n = n.divide(g);
            d = d.divide(g);
        }
        return new BigInteger[] {n, d};
    }

    private static Value q(final BigInteger[] a) {
        final StringValue v = new StringValue(a[1].equals(BigInteger.ONE) ? a[0].toString() : a[0] + "/" + a[1]);
        remember(v.val, a);
        return v;
    }

    private static BigInteger[] add(final BigInteger[] x, final BigInteger[] y) {
        return norm(x[0].multiply(y[1]).add(y[0].multiply(x[1])), x[1].multiply(y[1]));
    }

    private static BigInteger[] mul(final BigInteger[] x, final BigInteger[] y) {
        return norm(x[0].multiply(y[0]), x[1].multiply(y[1]));
    }

    private static BigInteger[] neg(final BigInteger[] x) {
        return new BigInteger[] {x[0].negate(), x[1]};
    }

    private static int cmp(final BigInteger[] x, final BigInteger[] y) {
        return x[0].multiply(y[1]).compareTo(y[0].multiply(x[1]));
    }

    public static Value R(final Value a) {
        try {
            return q(p(a));
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    public static Value RAdd(final Value a, final Value b) {
        try {
            return q(add(p(a), p(b)));
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    public static Value RSub(final Value a, final Value b) {
        try {
            return q(add(p(a), neg(p(b))));
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    public static Value RMul(final Value a, final Value b) {
        try {
            return q(mul(p(a), p(b)));
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    public static Value RDiv(final Value a, final Value b) {
        try {
            final BigInteger[] x = p(a), y = p(b);
            return q(norm(x[0].multiply(y[1]), x[1].multiply(y[0])));
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    public static Value RNeg(final Value a) {
        try {
            return q(neg(p(a)));
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    public static Value RAbs(final Value a) {
        try {
            final BigInteger[] x = p(a);
            return q(new BigInteger[] {x[0].abs(), x[1]});
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    public static Value RLe(final Value a, final Value b) {
        try {
            return cmp(p(a), p(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
        } catch (final NotANumber e) {
            return BoolValue.ValFalse;
        }
    }

    public static Value RLt(final Value a, final Value b) {
        try {
            return cmp(p(a), p(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
        } catch (final NotANumber e) {
            return BoolValue.ValFalse;
        }
    }

    public static Value RFloor(final Value a) {
        try {
            final BigInteger[] x = p(a);
            final BigInteger[] d = x[0].divideAndRemainder(x[1]);
            BigInteger r = d[0];
            if (d[1].signum() < 0) {
                r = r.subtract(BigInteger.ONE);
            }
            return IntValue.gen(r.intValueExact());
        } catch (final NotANumber e) {
            return IntValue.gen(-999999);
        }
    }

    public static Value RCeil(final Value a) {
        try {
            final BigInteger[] x = p(a);
            final BigInteger[] d = x[0].divideAndRemainder(x[1]);
            BigInteger r = d[0];
            if (d[1].signum() > 0) {
                r = r.add(BigInteger.ONE);
            }
            return IntValue.gen(r.intValueExact());
        } catch (final NotANumber e) {
            return IntValue.gen(-999999);
        }
    }

    public static Value RSum(final Value s) {
        try {
            final TupleValue t = (TupleValue) s.toTuple();
            BigInteger[] acc = {BigInteger.ZERO, BigInteger.ONE};
            for (final Value v : t.elems) {
                acc = add(acc, p(v));
            }
            return q(acc);
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    public static Value RDot(final Value s, final Value u) {
        try {
            final TupleValue t = (TupleValue) s.toTuple();
            final TupleValue w = (TupleValue) u.toTuple();
            BigInteger[] acc = {BigInteger.ZERO, BigInteger.ONE};
            for (int i = 0; i < t.elems.length; i++) {
                acc = add(acc, mul(p(t.elems[i]), p(w.elems[i])));
            }
            return q(acc);
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    /* |a - b| <= atol + rtol * max(|a|, |b|) */
    public static Value RClose(final Value a, final Value b, final Value rtol, final Value atol) {
        try {
            final BigInteger[] x = p(a), y = p(b);
            final BigInteger[] d = add(x, neg(y));
            final BigInteger[] ax = {x[0].abs(), x[1]}, ay = {y[0].abs(), y[1]};
            final BigInteger[] m = cmp(ax, ay) >= 0 ? ax : ay;
            final BigInteger[] lim = add(p(atol), mul(p(rtol), m));
            return cmp(new BigInteger[] {d[0].abs(), d[1]}, lim) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
        } catch (final NotANumber e) {
            return BoolValue.ValFalse;
        }
    }

    /* a rounded to the nearest multiple of 10^-k */
    public static Value RRound(final Value a, final Value k) {
        try {
            final BigInteger[] x = p(a);
            final BigInteger s = BigInteger.TEN.pow(((IntValue) k).val);
            final BigInteger n = x[0].multiply(s).multiply(BigInteger.TWO).add(x[1]);
            final BigInteger d = x[1].multiply(BigInteger.TWO);
            final BigInteger[] qr = n.divideAndRemainder(d);
            BigInteger r = qr[0];
            if (qr[1].signum() < 0) {
                r = r.subtract(BigInteger.ONE);
            }
            return q(norm(r, s));
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    /* square root to 40 digits */
    public static Value RSqrt(final Value a) {
        try {
            final BigInteger[] x = p(a);
            if (x[0].signum() < 0) {
                return NAN;
            }
            final java.math.MathContext mc = new java.math.MathContext(60);
            final BigDecimal d = new BigDecimal(x[0]).divide(new BigDecimal(x[1]), mc).sqrt(new java.math.MathContext(40));
            return R(new StringValue(d.toString()));
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    private static double dbl(final BigInteger[] x) {
        return new BigDecimal(x[0]).divide(new BigDecimal(x[1]), new java.math.MathContext(40)).doubleValue();
    }

    private static Value ofDouble(final double d) {
        if (Double.isNaN(d) || Double.isInfinite(d)) {
            return NAN;
        }
        return R(new StringValue(new BigDecimal(d).toString()));
    }

    /* a^b in double precision */
    public static Value RPow(final Value a, final Value b) {
        try {
            return ofDouble(Math.pow(dbl(p(a)), dbl(p(b))));
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    /* natural logarithm, exponential, sine, cosine in double precision */
    public static Value RLn(final Value a) {
        try {
            return ofDouble(Math.log(dbl(p(a))));
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    public static Value RExp(final Value a) {
        try {
            return ofDouble(Math.exp(dbl(p(a))));
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    public static Value RSin(final Value a) {
        try {
            return ofDouble(Math.sin(dbl(p(a))));
        } catch (final NotANumber e) {
            return NAN;
        }
    }

    public static Value RCos(final Value a) {
        try {
            return ofDouble(Math.cos(dbl(p(a))));
        } catch (final NotANumber e) {
            return NAN;
        }
    }
}
