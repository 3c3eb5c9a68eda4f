#!/usr/bin/env python3
"""Writes toy/<name>.rs (a replacement of src/fields.rs with a small prime) and
tla/toy/<name>.tla is not needed: the specification takes the prime from TOY_P."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SETS = {
    # name: (n, c, d1, a1, m1, d2, a2, m2)
    "t17": (17, 1, [(3, 2), (13, 1)], [(7, 1)], 3, [(5, 2), (11, 1)], [(17, 1)], 1),
    "t20": (20, 1, [(7, 2), (13, 2)], [(11, 1)], 1, [(3, 2), (23, 1)], [(5, 1)], 3),
    # complete systems: m1 prime to d1, m2 prime to d2 (the two above lack this)
    "s18": (18, 1, [(17, 1), (47, 1)], [(3, 1)], 5, [(41, 2)], [(7, 1)], 1),
    "s20": (20, 1, [(5, 2), (23, 1)], [(3, 2)], 1, [(11, 2)], [(7, 1)], 13),
    "s21": (21, 1, [(19, 1), (53, 1)], [(7, 1)], 5, [(13, 1), (61, 1)], [(3, 1), (11, 1)], 1),
}
def prod(f):
    r = 1
    for l, e in f: r *= l ** e
    return r
def strat(n):
    if n <= 1: return []
    b = max(1, min(n - 1, int(n * 0.38)))
    return [b] + strat(n - b) + strat(b)
def words(x):
    r = []
    while x:
        r.append(x & 0xFFFFFFFF); x >>= 32
    return r or [0]
TEMPLATE = open(os.path.join(V, "toy", "template.rs")).read()
for name, (n, c, d1, a1, m1, d2, a2, m2) in SETS.items():
    D1, D2, A1, A2 = prod(d1), prod(d2), prod(a1), prod(a2)
    assert m1 * m1 * D1 * A1 * A1 + m2 * m2 * D2 * A2 * A2 == 2 ** n
    p = c * 2 ** (n + 2) * D1 * D2 * A1 * A2 - 1
    # NQR_RE + i is a non-residue of Fp2: norm a non-square
    r = 1
    while pow(r * r + 1, (p - 1) // 2, p) == 1: r += 1
    t = TEMPLATE
    st = strat(n)
    assert len(st) == n - 1
    def arr(nm, w): return "    pub const %s: [u32; %d] = %s;\n" % (nm, len(w), w)
    def fac(nm, f): return "    pub const %s: [(u32, u32); %d] = %s;\n" % (nm, len(f), [tuple(x) for x in f])
    s = ""
    s += "    const NQR_RE: Fp = Fp::new([%d]);\n" % r
    for nm in ("P0x", "P0y", "Q0x", "Q0y"):
        s += "    pub const %s: Fp = Fp::new([1]);\n" % nm
    s += arr("D1", words(D1)) + fac("D1_FACTORED", d1) + arr("D2", words(D2)) + fac("D2_FACTORED", d2)
    s += arr("DA", words((A1 * A2) ** 2)) + fac("DA_FACTORED", [(l, 2 * e) for l, e in a1 + a2])
    s += arr("DA1", words(A1 ** 2)) + fac("DA1_FACTORED", a1) + arr("DA2", words(A2 ** 2)) + fac("DA2_FACTORED", a2)
    s += arr("M1", words(m1)) + arr("M2", words(m2))
    s += "    pub const L_POWER: u32 = %d;\n    pub const THETA_ISOGENY_LENGTH: u32 = %d;\n" % (n + 2, n)
    # these two follow the run-time prime
    for nm, k in (("BASIS_ORDER", 1), ("BIGUINT_MODULUS", 0)):
        s += ("    pub static %s: std::sync::LazyLock<Vec<u32>> = std::sync::LazyLock::new(|| {\n"
              "        (super::FpFESTA::prime() + %d).to_le_bytes().chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()\n    });\n" % (nm, k))
    s += "    pub const THETA_STRATEGY: [usize; %d] = %s;\n" % (n - 1, st)
    t = t.replace("@P@", str(p)).replace("@BITS@", str(p.bit_length())).replace("@CONSTS@", s)
    open(os.path.join(V, "toy", name + ".rs"), "w").write(t)
    print(name, p, hex(p))
