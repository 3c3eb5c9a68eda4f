#!/usr/bin/env python3
"""Writes tla/Diamonds.tla: tables of isogeny diamonds a*ma^2 + b*mb^2 = 2^n with
a, b coprime products of odd primes that divide p + 1 (one table per prime), for
which no intermediate step of the (2,2)-chain is a product of curves because of
the diamond itself (see NoEarlySplit).  The relations are checked again in TLA+."""
import functools
import math
import os
import random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# name: (BB, odd prime powers available, largest a and b, largest n, diamonds per n)
SETS = {
    "full": (634, [(3, 2), (5, 2), (7, 1), (11, 1), (13, 1), (17, 1), (19, 1), (29, 1), (37, 1), (59, 1)], 4000, 48, 3),
    "t17": (19, [(3, 2), (5, 2), (7, 1), (11, 1), (13, 1), (17, 1)], 3000, 17, 8),
    "t20": (22, [(3, 2), (5, 1), (7, 2), (11, 1), (13, 2), (23, 1)], 3000, 20, 8),
    "p60": (43, [(3, 2), (5, 1), (7, 1), (11, 1), (13, 1)], 3000, 41, 6),
}


def sqrts_mod_2e(c, e):
    """all x mod 2^e with x^2 = c mod 2^e, c odd"""
    xs = [x for x in range(8) if (x * x - c) % 8 == 0] if e >= 3 else [x for x in range(2 ** e) if (x * x - c) % 2 ** e == 0]
    for k in range(4, e + 1):
        xs = sorted({y for x in xs for y in (x, x + 2 ** (k - 1)) if (y * y - c) % 2 ** k == 0}
                    | {(y + 2 ** (k - 1)) % 2 ** k for x in xs for y in (x, x + 2 ** (k - 2), x + 2 ** (k - 1)) if ((y + 2 ** (k - 1)) ** 2 - c) % 2 ** k == 0}
                    | {y % 2 ** k for x in xs for y in (x + 2 ** (k - 2),) if (y * y - c) % 2 ** k == 0})
    return xs


@functools.lru_cache(None)
def primitive(D, e):
    """odd u, v > 0 with u^2 + D v^2 = 2^e"""
    m = 2 ** e
    res = set()
    for t in sqrts_mod_2e(-D % m, e):
        a, b = m, t
        while b * b > m:
            a, b = b, a % b
        if b and (m - b * b) % D == 0:
            v = math.isqrt((m - b * b) // D)
            if v * v * D == m - b * b and v:
                res.add((b, v))
    return res


def early_split(n, a, ma, b, mb):
    """a k < n with c^2 a b = d (2^k - d), d = +-c a ma / mb mod 2^k"""
    for k in range(1, n):
        M = 2 ** k
        sols = set()
        # (2 d - 2^k)^2 + 4 a b c^2 = 4^k: c, u scaled by powers of two from primitive solutions
        for j in range(0, k + 1):
            # u' = (2d - 2^k)/2, u'^2 + ab c^2 = 4^(k-1); u' = 2^j u0, c = 2^j c0
            e = 2 * (k - 1) - 2 * j
            if e < 0:
                break
            if e >= 3:
                for (u0, c0) in primitive(a * b, e):
                    sols.add((u0 << j, c0 << j))
            else:
                for c0 in range(1, 3):
                    for u0 in range(0, 3):
                        if u0 * u0 + a * b * c0 * c0 == 2 ** e:
                            sols.add((u0 << j, c0 << j))
        for (u, c) in sols:
            for s in (1, -1):
                if (M // 2) * 2 != M:
                    continue
                d = M // 2 + s * u
                assert d * (M - d) == c * c * a * b
                for w in (1, -1):
                    if (d - w * c * a * ma * pow(mb, -1, M)) % M == 0:
                        return True
    return False


def facs(primes, bound):
    out = [(1, ())]
    for l, e in primes:
        out += [(v * l ** k, f + ((l, k),)) for v, f in out for k in range(1, e + 1) if v * l ** k <= bound]
    return sorted(out)


def find(primes, bound, n, want, rnd):
    fs = facs(primes, bound)
    N = 2 ** n
    res = []
    # small n: everything; larger n: random tries
    tries = 0
    if n <= 9:
        cand = []
        for a, fa in fs:
            for ma in range(1, math.isqrt(N // a) + 1 if a <= N else 0, 2):
                r = N - a * ma * ma
                for b, fb in fs:
                    if r > 0 and r % b == 0 and math.gcd(a, b) == 1:
                        mb = math.isqrt(r // b)
                        if mb * mb * b == r and mb % 2:
                            cand.append((n, fa, ma, fb, mb, a, b))
        rnd.shuffle(cand)
        it = iter(cand)
    else:
        def gen():
            pairs = [(x, y) for x in fs for y in fs if math.gcd(x[0], y[0]) == 1 and (x[0] * y[0]) % 8 == 7]
            rnd.shuffle(pairs)
            for (a, fa), (b, fb) in pairs[:200000]:
                # a ma^2 + b mb^2 = 2^n  <=>  (a ma)^2 + a b mb^2 = a 2^n: Cornacchia on the form via u = a ma
                m = N
                # x = ma / mb mod 2^n satisfies a x^2 = -b
                for x in sqrts_mod_2e(-b * pow(a, -1, m) % m, n):
                    r0, r1 = m, x
                    lim = math.isqrt(m // a)
                    while r1 > lim:
                        r0, r1 = r1, r0 % r1
                    ma = r1
                    q = m - a * ma * ma
                    if q > 0 and q % b == 0:
                        mb = math.isqrt(q // b)
                        if mb * mb * b == q and ma % 2 and mb % 2:
                            yield (n, fa, ma, fb, mb, a, b)
                            break
        it = gen()
    for t in it:
        (_, fa, ma, fb, mb, a, b) = t
        assert a * ma * ma + b * mb * mb == N
        if a * b == 1 or early_split(n, a, ma, b, mb):
            continue
        res.append(t)
        if len(res) == want:
            break
    return res


def tla(t):
    def f(x):
        return "<<" + ",".join("<<%d,%d>>" % y for y in x) + ">>"
    return "<<%d,%s,%s,%s,%s>>" % (t[0], f(t[1]), '"%x"' % t[2], f(t[3]), '"%x"' % t[4])


def main():
    out = ["------------------------------ MODULE Diamonds ------------------------------",
           "(* Written by tools/mkdiamonds.py: <<n, a, ma, b, mb>> with a ma^2 + b mb^2 = 2^n, *)",
           "(* a and b factored, ma and mb hexadecimal.                                *)",
           "DiamondTable(name) =="]
    for i, (name, (bb, pr, bound, nmax, want)) in enumerate(SETS.items()):
        rnd = random.Random(20 + i)
        rows = []
        for n in range(3, nmax + 1):
            rows += find(pr, bound, n, want, rnd)
        if name == "full":
            for n in (64, 100, 158, 316, 500, 631, 632):
                rows += find(pr, bound, n, 2, rnd)
        print(name, len(rows), sorted({r[0] for r in rows}))
        out.append("  %s name = \"%s\" -> <<" % ("CASE" if i == 0 else "  []", name))
        out.append(",\n".join("    " + tla(r) for r in rows) + ">>")
    out.append("=============================================================================")
    open(os.path.join(V, "tla", "Diamonds.tla"), "w").write("\n".join(out) + "\n")


main()
