import java.math.BigInteger;
import java.util.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * Java implementations of the operators of Field.tla, Curve.tla and Isogeny.tla
 * marked (OVR): the same values as their definitions, computed in projective
 * coordinates.  EcSelf.tla compares them with the definitions.
 */
public class EcOverrides {
    /** Arithmetic modulo p = c 2^n - 1 on values x R, R = 2^(rounds n). */
    static final class Fld {
        final BigInteger p, c, mask, r;
        final int n, rounds, rn;
        final BigInteger[] zero, one;
        Fld(BigInteger p) {
            this.p = p;
            BigInteger q = p.add(BigInteger.ONE);
            n = q.getLowestSetBit();
            c = q.shiftRight(n);
            rounds = Math.max(3, p.bitLength() / n + 2); rn = rounds * n;
            mask = BigInteger.ONE.shiftLeft(n).subtract(BigInteger.ONE);
            r = BigInteger.ONE.shiftLeft(rn).mod(p);
            zero = new BigInteger[] { BigInteger.ZERO, BigInteger.ZERO };
            one = new BigInteger[] { r, BigInteger.ZERO };
        }
        BigInteger redc(BigInteger t) {
            for (int k = 0; k < rounds; k++) t = t.shiftRight(n).add(t.and(mask).multiply(c));
            while (t.compareTo(p) >= 0) t = t.subtract(p);
            return t;
        }
        BigInteger[] in(Value v) {
            BigInteger[] a = BigNatOverrides.pair(v);
            return new BigInteger[] { a[0].shiftLeft(rn).mod(p), a[1].shiftLeft(rn).mod(p) };
        }
        Value out(BigInteger[] a) { return BigNatOverrides.pairv(redc(a[0]), redc(a[1])); }
        BigInteger a1(BigInteger x, BigInteger y) { BigInteger t = x.add(y); return t.compareTo(p) >= 0 ? t.subtract(p) : t; }
        BigInteger s1(BigInteger x, BigInteger y) { BigInteger t = x.subtract(y); return t.signum() < 0 ? t.add(p) : t; }
        BigInteger[] add(BigInteger[] x, BigInteger[] y) { return new BigInteger[] { a1(x[0], y[0]), a1(x[1], y[1]) }; }
        BigInteger[] sub(BigInteger[] x, BigInteger[] y) { return new BigInteger[] { s1(x[0], y[0]), s1(x[1], y[1]) }; }
        BigInteger[] neg(BigInteger[] x) { return sub(zero, x); }
        BigInteger[] mul(BigInteger[] x, BigInteger[] y) {
            BigInteger ac = x[0].multiply(y[0]), bd = x[1].multiply(y[1]);
            BigInteger m = x[0].add(x[1]).multiply(y[0].add(y[1])).subtract(ac).subtract(bd);
            BigInteger d = ac.subtract(bd);
            if (d.signum() < 0) d = d.add(p.multiply(p));
            return new BigInteger[] { redc(d), redc(m) };
        }
        BigInteger[] sqr(BigInteger[] x) {
            BigInteger s = x[0].add(x[1]), d = x[0].subtract(x[1]);
            if (d.signum() < 0) d = d.add(p);
            return new BigInteger[] { redc(s.multiply(d)), redc(x[0].multiply(x[1]).shiftLeft(1)) };
        }
        boolean isz(BigInteger[] x) { return x[0].signum() == 0 && x[1].signum() == 0; }
        boolean eq(BigInteger[] x, BigInteger[] y) { return x[0].equals(y[0]) && x[1].equals(y[1]); }
        /** inverse, zero for zero */
        BigInteger[] inv(BigInteger[] x) {
            if (isz(x)) return zero;
            BigInteger nn = redc(x[0].multiply(x[0]).add(x[1].multiply(x[1])));   // N R
            BigInteger i = redc(nn).modInverse(p);                                 // 1/N
            i = i.shiftLeft(rn).mod(p);
            return new BigInteger[] { redc(x[0].multiply(i)), redc(s1(BigInteger.ZERO, x[1]).multiply(i)) };
        }
    }
    static final Map<BigInteger, Fld> FIELDS = new HashMap<>();
    static synchronized Fld fld(Value m) {
        BigInteger p = BigNatOverrides.big(m);
        Fld f = FIELDS.get(p);
        if (f == null) { f = new Fld(p); FIELDS.put(p, f); }
        return f;
    }

    /** Jacobian coordinates; null is infinity. */
    static final class Pt { BigInteger[] x, y, z; Pt(BigInteger[] x, BigInteger[] y, BigInteger[] z) { this.x = x; this.y = y; this.z = z; } }
    static final class Crv {
        final Fld f; final BigInteger[] a, a2;
        Crv(Fld f, BigInteger[] a) { this.f = f; this.a = a; this.a2 = f.add(a, a); }
        /** numerator and denominator of the slope of the last line */
        BigInteger[] ln, ld;
        Pt dbl(Pt p) {
            if (p == null || f.isz(p.y)) return null;
            BigInteger[] xx = f.sqr(p.x), zz = f.sqr(p.z), yy = f.sqr(p.y);
            BigInteger[] m = f.add(f.add(f.add(xx, f.add(xx, xx)), f.mul(a2, f.mul(p.x, zz))), f.sqr(zz));
            BigInteger[] yz = f.mul(p.y, p.z), z3 = f.add(yz, yz);
            BigInteger[] s = f.mul(p.x, yy); s = f.add(s, s); s = f.add(s, s);
            BigInteger[] x3 = f.sub(f.sub(f.sub(f.sqr(m), f.mul(a, f.sqr(z3))), s), s);
            BigInteger[] y4 = f.sqr(yy); y4 = f.add(y4, y4); y4 = f.add(y4, y4); y4 = f.add(y4, y4);
            BigInteger[] y3 = f.sub(f.mul(m, f.sub(s, x3)), y4);
            ln = m; ld = z3;
            return new Pt(x3, y3, z3);
        }
        /** p + q, q affine */
        Pt add(Pt p, BigInteger[] qx, BigInteger[] qy) {
            if (p == null) return new Pt(qx, qy, f.one);
            BigInteger[] zz = f.sqr(p.z);
            BigInteger[] h = f.sub(f.mul(qx, zz), p.x), r = f.sub(f.mul(qy, f.mul(zz, p.z)), p.y);
            if (f.isz(h)) return f.isz(r) ? dbl(p) : null;
            BigInteger[] z3 = f.mul(p.z, h), hh = f.sqr(h), hhh = f.mul(hh, h), v = f.mul(p.x, hh);
            BigInteger[] x3 = f.sub(f.sub(f.sub(f.sub(f.sqr(r), f.mul(a, f.sqr(z3))), hhh), v), v);
            BigInteger[] y3 = f.sub(f.mul(r, f.sub(v, x3)), f.mul(p.y, hhh));
            ln = r; ld = z3;
            return new Pt(x3, y3, z3);
        }
    }
    static boolean isInf(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems.length == 0;
        return ((TupleValue) v.toTuple()).elems.length == 0;
    }
    static Value[] elems(Value v) { return v instanceof TupleValue ? ((TupleValue) v).elems : ((TupleValue) v.toTuple()).elems; }
    static final TupleValue INF = new TupleValue(new Value[0]);
    static Value affine(Fld f, Pt p) {
        if (p == null) return INF;
        BigInteger[] i = f.inv(p.z), ii = f.sqr(i);
        return new TupleValue(new Value[] { f.out(f.mul(p.x, ii)), f.out(f.mul(p.y, f.mul(ii, i))) });
    }

    @TLAPlusOperator(identifier = "BF2Pow", module = "Field", warn = false)
    public static Value f2pow(Value x, Value e, Value m) {
        Fld f = fld(m); BigInteger n = BigNatOverrides.big(e); BigInteger[] b = f.in(x), r = f.one;
        for (int k = n.bitLength() - 1; k >= 0; k--) { r = f.sqr(r); if (n.testBit(k)) r = f.mul(r, b); }
        return f.out(r);
    }
    @TLAPlusOperator(identifier = "BEcMul", module = "Curve", warn = false)
    public static Value ecmul(Value av, Value pv, Value nv, Value m) {
        BigInteger n = BigNatOverrides.big(nv);
        if (isInf(pv) || n.signum() == 0) return INF;
        Fld f = fld(m); Crv c = new Crv(f, f.in(av));
        Value[] e = elems(pv);
        BigInteger[] x = f.in(e[0]), y = f.in(e[1]), ny = f.neg(y);
        // signed digits: the bits of 3n and n differ
        BigInteger t = n.shiftLeft(1).add(n);
        Pt r = null;
        for (int k = t.bitLength() - 1; k >= 1; k--) {
            r = c.dbl(r);
            boolean hi = t.testBit(k), lo = n.testBit(k);
            if (hi && !lo) r = c.add(r, x, y); else if (!hi && lo) r = c.add(r, x, ny);
        }
        return affine(f, r);
    }
    @TLAPlusOperator(identifier = "BMiller", module = "Curve", warn = false)
    public static Value miller(Value av, Value pv, Value rv, Value nv, Value m) {
        BigInteger n = BigNatOverrides.big(nv);
        Fld f = fld(m);
        if (n.bitLength() <= 1 || isInf(pv)) return f.out(f.one);
        Crv c = new Crv(f, f.in(av));
        Value[] e = elems(pv), g = elems(rv);
        BigInteger[] px = f.in(e[0]), py = f.in(e[1]), rx = f.in(g[0]), ry = f.in(g[1]);
        BigInteger[] num = f.one, den = f.one;
        Pt v = new Pt(px, py, f.one);
        for (int k = n.bitLength() - 2; k >= 0; k--) {
            num = f.sqr(num); den = f.sqr(den);
            for (int j = 0; j < (n.testBit(k) ? 2 : 1); j++) {
                if (v == null) { if (j == 1) v = new Pt(px, py, f.one); continue; }
                Pt w = j == 0 ? c.dbl(v) : c.add(v, px, py);
                BigInteger[] z2 = f.sqr(v.z);
                if (w == null) {          // vertical: (rx - X/Z^2)
                    num = f.mul(num, f.sub(f.mul(rx, z2), v.x));
                    den = f.mul(den, z2);
                } else {
                    // ((ry - y) - l (rx - x)) / (rx - x3), l = ln/ld, through v
                    BigInteger[] z3 = f.mul(z2, v.z), w2 = f.sqr(w.z);
                    BigInteger[] a = f.mul(f.mul(f.sub(f.mul(ry, z3), v.y), c.ld), f.one);
                    BigInteger[] b = f.mul(f.mul(f.sub(f.mul(rx, z2), v.x), v.z), c.ln);
                    num = f.mul(num, f.mul(f.sub(a, b), w2));
                    den = f.mul(den, f.mul(f.mul(z3, c.ld), f.sub(f.mul(rx, w2), w.x)));
                }
                v = w;
            }
            if (f.isz(num) || f.isz(den)) return f.out(f.zero);
        }
        return f.out(f.mul(num, f.inv(den)));
    }
    static BigInteger[][] batchInv(Fld f, BigInteger[][] v) {
        int n = v.length; BigInteger[][] pre = new BigInteger[n + 1][]; pre[0] = f.one;
        for (int k = 0; k < n; k++) pre[k + 1] = f.mul(pre[k], v[k]);
        BigInteger[] i = f.inv(pre[n]); BigInteger[][] r = new BigInteger[n][];
        for (int k = n - 1; k >= 0; k--) { r[k] = f.mul(i, pre[k]); i = f.mul(i, v[k]); }
        return r;
    }
    @TLAPlusOperator(identifier = "BKernelX", module = "Isogeny", warn = false)
    public static Value kernelx(Value av, Value kv, Value lv, Value m) {
        Fld f = fld(m); Crv c = new Crv(f, f.in(av)); Value[] e = elems(kv);
        BigInteger[] x = f.in(e[0]), y = f.in(e[1]);
        int n = (((IntValue) lv).val - 1) / 2;
        BigInteger[][] xs = new BigInteger[n][], zs = new BigInteger[n][];
        Pt t = null;
        for (int k = 0; k < n; k++) { t = c.add(t, x, y); xs[k] = t.x; zs[k] = t.z; }
        zs = batchInv(f, zs);
        Value[] r = new Value[n];
        for (int k = 0; k < n; k++) r[k] = f.out(f.mul(xs[k], f.sqr(zs[k])));
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "BVeluCodomain", module = "Isogeny", warn = false)
    public static Value velucod(Value av, Value xv, Value m) {
        Fld f = fld(m); BigInteger[] a = f.in(av); Value[] e = elems(xv);
        BigInteger[] sx = f.zero, pr = f.one, in = f.zero, id = f.one;
        for (int k = 0; k < e.length; k++) {
            BigInteger[] x = f.in(e[k]);
            sx = f.add(sx, x); pr = f.mul(pr, x);
            if (!f.isz(x)) { in = f.add(f.mul(in, x), id); id = f.mul(id, x); }
        }
        BigInteger[] d = f.sub(f.mul(in, f.inv(id)), sx), d2 = f.add(d, d), d4 = f.add(d2, d2);
        return f.out(f.mul(f.add(f.add(d2, d4), a), f.sqr(pr)));
    }
    @TLAPlusOperator(identifier = "BVeluTerms", module = "Isogeny", warn = false)
    public static Value veluterms(Value x0, Value xv, Value m) {
        Fld f = fld(m); BigInteger[] x = f.in(x0); Value[] e = elems(xv);
        BigInteger[] pn = f.one, pd = f.one, sn = f.zero, sd = f.one, pr = f.one;
        for (int k = 0; k < e.length; k++) {
            BigInteger[] xi = f.in(e[k]);
            BigInteger[] n = f.sub(f.mul(x, xi), f.one), d = f.sub(x, xi), nd = f.mul(n, d);
            pn = f.mul(pn, n); pd = f.mul(pd, d);
            if (!f.isz(nd)) { sn = f.add(f.mul(sn, nd), f.mul(sd, f.sub(f.mul(xi, d), n))); sd = f.mul(sd, nd); }
            pr = f.mul(pr, xi);
        }
        return new TupleValue(new Value[] { f.out(f.sqr(f.mul(pn, f.inv(pd)))), f.out(f.mul(sn, f.inv(sd))), f.out(pr) });
    }
}
