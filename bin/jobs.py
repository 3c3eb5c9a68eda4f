"""Which jobs decide which property."""


def conf(name, genmod, gen, size, **kw):
    d = {"kind": "conf", "name": name, "genmod": genmod, "gen": gen, "size": size}
    d.update(kw)
    return d


def model(name, module, cfg, **kw):
    d = {"kind": "model", "name": name, "module": module, "cfg": cfg}
    d.update(kw)
    return d


COMMON = [
    "TLC 1.8.0, the JVM and the BigInteger overrides of BigNat (compared with their TLA+ definitions by BigNatSelf.tla) evaluate the specification correctly",
    "the harness records what the code returned: values are read through encode()/get_coeff()/to_xyz()",
]

TECHNIQUE = "TLA+ specification checked with TLC; specification-generated cases run in the real code, recorded traces validated against the specification by TLC"
HOOKS = {"guard": "cfg festa_verif", "enable": "RUSTFLAGS='--cfg festa_verif' with FESTA_VERIF_FIELDS=<absolute path of a parameter module, e.g. /verif/toy/t17.rs>", "source_commits": ["cce986949cdc3498e7a38a6d6d2dbdc01ea649e3"]}
NOT_APPLICABLE = {}

# complete systems with small primes (tools/mktoy.py)
S18 = dict(params="toy", exe="s18", env={"FESTA_TOY_P": "29575609319423"})
S20 = dict(params="toy", exe="s20", env={"FESTA_TOY_P": "18384578150399"})
S21 = dict(params="toy", exe="s21", env={"FESTA_TOY_P": "1547406931918847"})


# the abstract protocol (Protocol.tla) with one parameter set, enumerating the choices of one part
def proto(pset, focus, states, **kw):
    return model("protocol-%s-%s" % (pset, focus), "MCProtocol", "MCProtocol.cfg", min_states=states,
                 env={"PSET": pset, "FOCUS": focus}, timeout=800, **kw)


CHECKS = {
    "P01": {"note": "Complete systems with small primes: every scalar of each side, boundary masks, many keys (some with extreme masks), keys and outputs also carried through their encodings; the production system on boundary and random messages; the mask recovery alone on every boundary of its sign rule.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("round", "GenProto", "round", (3, 12), case_timeout=300),
        conf("round-s18", "GenProto", "round", (12, 80), **S18),
        conf("round-s20", "GenProto", "round", (12, 80), **S20),
        conf("round-s21", "GenProto", "round", (12, 80), **S21),
        conf("sweep-s18", "GenProto", "sweep", (1, 6), **S18),
        conf("sweep-s20", "GenProto", "sweep", (1, 6), **S20),
        conf("sweep-s21", "GenProto", "sweep", (1, 6), **S21),
        conf("diag", "GenProto", "diag", (4, 30)),
        conf("diag-s20", "GenProto", "diag", (200, 900), **S20),
        proto("Q", "mask", 9000), proto("P", "sign", 30), proto("R", "key", 600000, thorough_only=True),
        proto("P", "d1", 500000, thorough_only=True), proto("S", "d2", 500000, thorough_only=True),
        proto("P", "mask", 4000, thorough_only=True), proto("S", "mask", 4000, thorough_only=True), proto("Q", "d1", 25000, thorough_only=True), proto("R", "sign", 30, thorough_only=True),
    ]},
    "P02": {"note": "Generated keys against pairing identities and orders; on small systems the secret isogenies are searched and the published points compared with their images.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("keys", "GenProto", "keys", (4, 24), case_timeout=300),
        conf("keys-s18", "GenProto", "keys", (12, 60), **S18),
        conf("keys-s20", "GenProto", "keys", (8, 40), **S20),
        conf("keys-s21", "GenProto", "keys", (4, 16), **S21),
    ]},
    "P03": {"note": "Both branches recomputed by the specification's own isogenies, on boundary scalars and masks.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("eval", "GenProto", "eval", (3, 12), case_timeout=300),
        conf("eval-s18", "GenProto", "eval", (12, 60), **S18),
        conf("eval-s20", "GenProto", "eval", (12, 60), **S20),
        conf("eval-s21", "GenProto", "eval", (12, 60), **S21),
    ]},
    "P04": {"note": "Encodings of keys and outputs with integers of every byte length and extreme field values in every place, bytes compared with the specification's.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("codec", "GenProto", "codec", (1, 6)),
        conf("codec-s20", "GenProto", "codec", (3, 12), **S20),
    ]},
    "P23": {"note": "The published constants read from the built crate and related to each other by exact integer arithmetic.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("params", "GenProto", "params", (1, 1)),
    ]},
    "P05": {"note": "Every operation on operand classes with extreme plain and internal limbs, all pairs of a pool, plus register histories; compared with integer arithmetic mod p in the specification.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("fp-ring", "GenFp", "ring", (110, 150)),
    ]},
    "P06": {"note": "Inverse, quotient and character on extreme operands of both fields, and chained in register histories.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("fp-inv", "GenFp", "inv", (120, 250)),
        conf("f2-inv", "GenF2", "f2inv", (100, 200)),
    ]},
    "P07": {"note": "Square and fourth roots on squares, non-squares, fourth powers, axis elements and extreme limbs, judged by the defining equations and the sign rule.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("fp-sqrt", "GenFp", "sqrt", (120, 250)),
        conf("f2-sqrt", "GenF2", "f2sqrt", (160, 300)),
    ]},
    "P08": {"note": "Extension-field operations in every spelling on structured pairs, batch inversion across its block boundary, exponentiation windows, register histories.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("f2-ring", "GenF2", "f2ring", (70, 90)),
    ]},
    "P09": {"note": "Encoding, decoding of canonical, non-canonical and wrong-length strings, reducing decoder of any length, equality, display.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("enc", "GenFp", "enc", (120, 250)),
    ]},
    "P10": {"note": "All pairs of a pool of special points on seven curves in random projective representatives; on primes 7 and 23 all pairs of points of whole curves.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("ec-add", "GenEc", "add", (10, 30)),
        conf("ec-add-p7", "GenEc", "add", (60, 60), params="toy", exe="t17", env={"FESTA_TOY_P": "7"}),
        conf("ec-add-p23", "GenEc", "add", (20, 60), params="toy", exe="t17", env={"FESTA_TOY_P": "23"}),
    ]},
    "P11": {"note": "Scalars around every word, window and order boundary times generic, two-torsion, small-order and infinite points; all scalars below twice the group exponent on tiny curves.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("ec-mul", "GenEc", "mul", (14, 40)),
        conf("ec-mul-p7", "GenEc", "mul", (64, 64), params="toy", exe="t17", env={"FESTA_TOY_P": "7"}),
        conf("ec-mul-p23", "GenEc", "mul", (20, 60), params="toy", exe="t17", env={"FESTA_TOY_P": "23"}),
        model("ladder-p7", "Ladder", "Ladder.cfg", min_states=250000, params="toy", env={"FESTA_TOY_P": "7"}),
    ]},
    "P12": {"note": "Valid and perturbed coordinates, liftable and non-liftable x of every shape, enumeration and sampling; every x of small fields.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("ec-valid", "GenEc", "valid", (16, 40)),
        conf("ec-valid-p7", "GenEc", "valid", (20, 20), params="toy", exe="t17", env={"FESTA_TOY_P": "7"}),
        conf("ec-valid-p23", "GenEc", "valid", (20, 20), params="toy", exe="t17", env={"FESTA_TOY_P": "23"}),
    ]},
    "P13": {"note": "Order, independence, repeatability of every basis constructor over curves of 2-isogeny walks and torsion groups of every shape.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("basis", "GenTor", "basis", (8, 16)),
        conf("basis-big", "GenTor", "basis", (6, 20), params="toy", exe="t17", env={"FESTA_TOY_P": "20348826655006079"}),
        conf("basis-t17", "GenTor", "basis", (12, 40), params="toy", exe="t17"),
        conf("basis-t20", "GenTor", "basis", (12, 40), params="toy", exe="t20", env={"FESTA_TOY_P": "395435562762239"}),
    ]},
    "P14": {"note": "Points and field elements of each divisor of each factored order, in every sequence of primes; complete groups on tiny primes.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("order", "GenTor", "order", (8, 24)),
        conf("order-big", "GenTor", "order", (12, 40), params="toy", exe="t17", env={"FESTA_TOY_P": "20348826655006079"}),
        conf("order-t17", "GenTor", "order", (30, 60), params="toy", exe="t17"),
        conf("order-p23", "GenTor", "order", (6, 6), params="toy", exe="t17", env={"FESTA_TOY_P": "23"}),
        conf("order-p239", "GenTor", "order", (6, 6), params="toy", exe="t17", env={"FESTA_TOY_P": "239"}),
    ]},
    "P15": {"note": "Pairings of dependent, independent, low-order and infinite pairs against the specification's value; all pairs of whole torsion groups on tiny primes.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("weil", "GenTor", "weil", (16, 40)),
        conf("weil-big", "GenTor", "weil", (10, 40), params="toy", exe="t17", env={"FESTA_TOY_P": "20348826655006079"}),
        conf("weil-t17", "GenTor", "weil", (30, 80), params="toy", exe="t17"),
        conf("weil-p7", "GenTor", "weil", (64, 64), params="toy", exe="t17", env={"FESTA_TOY_P": "7"}),
        conf("weil-p23", "GenTor", "weil", (24, 64), params="toy", exe="t17", env={"FESTA_TOY_P": "23"}),
        conf("weil-p71", "GenTor", "weil", (24, 64), params="toy", exe="t17", env={"FESTA_TOY_P": "71"}),
    ]},
    "P16": {"note": "Logarithms of special and random powers for every prime and every factorisation; coordinates of every point of small torsion groups.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("dlog", "GenTor", "dlog", (10, 24)),
        conf("dlog-big", "GenTor", "dlog", (10, 30), params="toy", exe="t17", env={"FESTA_TOY_P": "20348826655006079"}),
        conf("dlog-t17", "GenTor", "dlog", (20, 40), params="toy", exe="t17"),
        conf("bidlp", "GenTor", "bidlp", (4, 12)),
        conf("bidlp-big", "GenTor", "bidlp", (6, 20), params="toy", exe="t17", env={"FESTA_TOY_P": "20348826655006079"}),
        conf("bidlp-t17", "GenTor", "bidlp", (10, 24), params="toy", exe="t17"),
        conf("bidlp-t20", "GenTor", "bidlp", (10, 24), params="toy", exe="t20", env={"FESTA_TOY_P": "395435562762239"}),
    ]},
    "P17": {"note": "Inverses, remaindering and integer roots on coprime pairs of every size relation, permuted factors, squares and their neighbours up to 2^32.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("ints", "GenTor", "ints", (60, 300)),
    ]},
    "P19": {"note": "Recovered scalars checked by pairings with the kernel; every split of the primes between the two generators, every scalar and pair for small orders.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("kernel", "GenTor", "kernel", (5, 12)),
        conf("kernel-big", "GenTor", "kernel", (10, 40), params="toy", exe="t17", env={"FESTA_TOY_P": "20348826655006079"}),
        conf("kernel-t17", "GenTor", "kernel", (30, 80), params="toy", exe="t17"),
        conf("kernel-t20", "GenTor", "kernel", (30, 80), params="toy", exe="t20", env={"FESTA_TOY_P": "395435562762239"}),
    ]},
    "P18": {"note": "Every kernel of prime degree on small curves, composite degrees in every order of primes, images of points of every kind (kernel, its translates, two- and four-torsion, generic), scalar-defined kernels and random walks; the production degrees once each.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("chain", "GenIso", "chain", (4, 30)),
        conf("chain-large", "GenIso", "large", (1, 1)),
        conf("chain-t17", "GenIso", "chain", (2, 12), params="toy", exe="t17"),
        conf("chain-t20", "GenIso", "chain", (1, 8), params="toy", exe="t20", env={"FESTA_TOY_P": "395435562762239"}),
        conf("scalar", "GenIso", "scalar", (3, 12)),
        conf("scalar-t17", "GenIso", "scalar", (10, 40), params="toy", exe="t17"),
        conf("random", "GenIso", "random", (1, 4)),
        conf("random-t17", "GenIso", "random", (12, 40), params="toy", exe="t17"),
        conf("random-t20", "GenIso", "random", (12, 40), params="toy", exe="t20", env={"FESTA_TOY_P": "395435562762239"}),
    ]},
    "P20": {"note": "Isogeny diamonds of every length the tables reach: codomains and images of points of every kind against the diamond's other side.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("theta", "GenTheta", "theta", (14, 60), env={"MAXLEN_HEX": "12"}),
        conf("theta-mid", "GenTheta", "theta", (4, 30), env={"MINLEN_HEX": "d", "MAXLEN_HEX": "30"}),
        conf("theta-long", "GenTheta", "long", (1, 4), env={"MINLEN_HEX": "278", "MAXLEN_HEX": "278"}),
        conf("theta-longs", "GenTheta", "long", (2, 12), env={"MINLEN_HEX": "40", "MAXLEN_HEX": "277"}),
        conf("theta-t17", "GenTheta", "theta", (110, 430), params="toy", exe="t17"),
        conf("theta-t20", "GenTheta", "theta", (135, 530), params="toy", exe="t20", env={"FESTA_TOY_P": "395435562762239"}),
        conf("theta-p60", "GenTheta", "theta", (110, 640), params="toy", exe="t17", env={"FESTA_TOY_P": "1188660030556078079"}),
    ]},
    "P21": {"note": "All strategies of chains up to six steps, random and extreme strategies and the stored one for longer chains, against the strategy-free result; odd chains of every prime power against step-by-step composition.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("powers", "GenIso", "powers", (1, 4)),
        conf("powers-toy", "GenIso", "powers", (4, 20), params="toy", exe="t17", env={"FESTA_TOY_P": "1722586285349999999"}),
        conf("strat", "GenTheta", "strat", (6, 40), env={"MAXLEN_HEX": "20"}),
        conf("strat-long", "GenTheta", "long", (1, 4), env={"MINLEN_HEX": "278", "MAXLEN_HEX": "278"}),
        conf("strat-longs", "GenTheta", "long", (2, 12), env={"MINLEN_HEX": "40", "MAXLEN_HEX": "277"}),
        conf("strat-t17", "GenTheta", "strat", (100, 430), params="toy", exe="t17"),
        conf("strat-t20", "GenTheta", "strat", (60, 400), params="toy", exe="t20", env={"FESTA_TOY_P": "395435562762239"}),
        model("chain", "Chain", "Chain.cfg", min_states=30000),
        conf("strat-p60", "GenTheta", "strat", (60, 400), params="toy", exe="t17", env={"FESTA_TOY_P": "1188660030556078079"}),
    ]},
    "P24": {"note": "Doublings on products of one-dimensional structures against the Montgomery doubling of both components, on arbitrary structures against the duplication formula; component-wise arithmetic of products of curves.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("dbl", "GenTheta", "dbl", (60, 400)),
        conf("dbl-t17", "GenTheta", "dbl", (150, 800), params="toy", exe="t17"),
        conf("dbl-p60", "GenTheta", "dbl", (100, 800), params="toy", exe="t17", env={"FESTA_TOY_P": "1188660030556078079"}),
    ]},
    "P22": {"note": "All ordered pairs of isomorphic Montgomery curves over every curve of walks, both special j-invariants and random curves; every curve over the smallest fields.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("isom", "GenIso", "isom", (6, 20)),
        conf("isom-t17", "GenIso", "isom", (20, 60), params="toy", exe="t17"),
        conf("isom-p7", "GenIso", "isom", (4, 4), params="toy", exe="t17", env={"FESTA_TOY_P": "7"}),
        conf("isom-p23", "GenIso", "isom", (4, 4), params="toy", exe="t17", env={"FESTA_TOY_P": "23"}),
    ]},
    "P25": {"note": "Many draws of every random choice: on small fields and degrees the set of draws is the set of admissible values, on the production field every digit varies and all draws differ.", "level": "model_checking", "assumptions": COMMON + ["a value an honest generator leaves out of the recorded draws has probability below 1e-9"], "jobs": [
        conf("fields", "GenRand", "fields", (1, 4)),
        conf("fields-p7", "GenRand", "fields", (2, 6), params="toy", exe="t17", env={"FESTA_TOY_P": "7"}),
        conf("fields-p23", "GenRand", "fields", (1, 2), params="toy", exe="t17", env={"FESTA_TOY_P": "23"}),
        conf("points", "GenRand", "points", (1, 4)),
        conf("points-p7", "GenRand", "points", (4, 12), params="toy", exe="t17", env={"FESTA_TOY_P": "7"}),
        conf("points-p23", "GenRand", "points", (2, 4), params="toy", exe="t17", env={"FESTA_TOY_P": "23"}),
        conf("tor", "GenRand", "tor", (3, 8)),
        conf("tor-p23", "GenRand", "tor", (1, 3), params="toy", exe="t17", env={"FESTA_TOY_P": "23"}),
        conf("tor-p71", "GenRand", "tor", (1, 2), params="toy", exe="t17", env={"FESTA_TOY_P": "71"}),
        conf("tor-t17", "GenRand", "tor", (2, 8), params="toy", exe="t17"),
        conf("iso-t17", "GenRand", "iso", (2, 6), params="toy", exe="t17"),
        conf("iso-s20", "GenRand", "iso", (2, 6), **S20),
        conf("iso-s21", "GenRand", "iso", (2, 6), **S21),
        conf("keys", "GenRand", "keys", (1, 3), case_timeout=600),
        conf("keys-s18", "GenRand", "keys", (1, 4), **S18),
        conf("keys-s20", "GenRand", "keys", (1, 2), **S20),
        conf("keys-s21", "GenRand", "keys", (1, 3), **S21),
    ]},
    "P26": {"note": "All pairs of pools of values that differ in one digit, one coordinate or not at all, each value reached in several ways.", "level": "model_checking", "assumptions": COMMON, "jobs": [
        conf("values", "GenValue", "values", (6, 30)),
        conf("values-p7", "GenValue", "tiny", (1, 1), params="toy", exe="t17", env={"FESTA_TOY_P": "7"}),
        conf("messages", "GenValue", "messages", (8, 40)),
    ]},
}
