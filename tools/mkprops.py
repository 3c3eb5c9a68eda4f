#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that wording stays uniform)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
S="src/"
p("P01","Trapdoor inversion returns exactly the message that was evaluated",
  "For every key pair the system generates and every valid message (two scalars below their bounds, an invertible diagonal masking pair of determinant one given by its representative below half of the masking modulus), inverting the trapdoor output with the matching secret key terminates normally and returns exactly that message. Boundary scalars (zero, one, bound minus one, multiples of the bound's prime factors) and boundary masks are no exception, and a mask given by its other representative (the negative) comes back as the one below half.",
  ["inputs","histories"],"every generated key pair x every valid (s1, s2, mask), including the boundary values of each component",
  "The one end-to-end test draws a single random key and message and only prints both: it never compares them, and it never uses boundary scalars or masks.",
  [S+"festa.rs",S+"theta.rs",S+"isogeny.rs",S+"pairing.rs",S+"discrete_log.rs",S+"supersingular.rs",S+"eccore.rs"],
  [("trapdoor_eval / trapdoor_inverse","src/festa.rs FESTACrypto"),("recover_si_and_B, recover_diagB","src/festa.rs"),("product_isogeny","src/theta.rs"),("compute_canonical_kernel","src/supersingular.rs")],
  [("SecretKey","EA', images of the bd1 basis, images of the d2 basis, diagonal mask A","src/festa.rs")],["FESTACrypto::trapdoor_inverse return value"],
  "build-time replacement of the parameter module by toy parameters (cfg festa_verif), so that all messages of a toy instance can be enumerated")
p("P02","Every generated key pair is internally consistent",
  "Every key pair the system generates consists of points that lie on their stated supersingular curves, have exactly the prescribed orders and form bases; the public basis is the image of the fixed starting-curve basis under an isogeny of the prescribed degree, scaled by the secret diagonal mask; the secret images are the starting-curve points under the first isogeny, and a basis that the second isogeny maps to a common multiple of the canonical basis of the public curve. All of this is witnessed by the pairing values, which equal the starting-curve pairings raised to the isogeny degree times the mask determinant.",
  ["inputs","histories"],"every outcome of the random choices made by key generation",
  "Key generation is executed once in the tests and no relation between the parts of the key is asserted.",
  [S+"festa.rs",S+"supersingular.rs",S+"isogeny.rs"],[("keygen","src/festa.rs"),("random_isogeny_x_only","src/supersingular.rs")],
  [("PublicKey/SecretKey","see P01","src/festa.rs")],["keygen return value through extract()"],None)
p("P03","Trapdoor evaluation is deterministic, well formed and fixed by the message",
  "For every public key and every message (scalars below their bounds, any diagonal mask with odd entries below the masking modulus) the output consists of two supersingular curves, each with two on-curve points of exactly the full masking order forming a basis; each pair is the image of the corresponding input pair under the odd-degree isogeny whose kernel the corresponding scalar selects, times the diagonal mask. Repeating the call gives identical output, and the codomains are those of the isogenies with kernel generated by first-plus-scalar-times-second canonical basis point.",
  ["inputs"],"every public key x every valid message including boundary scalars",
  "No test asserts anything about the trapdoor output.",
  [S+"festa.rs",S+"supersingular.rs",S+"isogeny.rs"],[("trapdoor_eval","src/festa.rs"),("isogeny_from_scalar_x_only","src/supersingular.rs")],None,["TrapdoorOutput::extract()"],None)
p("P04","Secret keys and trapdoor outputs survive serialisation unchanged",
  "Encoding a secret key or a trapdoor output always yields the fixed documented length, and decoding it gives an object equal in every component (curves, affine points, integers), whatever the values are, including integers with leading zero bytes and of maximal length. Encoding the decoded object again yields the same bytes, and fields appear in the same order and positions.",
  ["inputs"],"every secret key and trapdoor output, including integers of every byte length up to the maximum and field elements 0, 1, p-1",
  "The tests decode one stored key and one stored ciphertext and never compare a re-encoding; padding of short integers is never reached.",
  [S+"festa.rs",S+"finitefield/fp_gen.rs",S+"finitefield/fp2_gen.rs"],[("encode/decode","src/festa.rs SecretKey, TrapdoorOutput")],None,["encode() bytes, decode().extract()"],None)
p("P05","Base-field ring operations equal arithmetic modulo p on every operand",
  "Every base-field ring operation (add, subtract, negate, multiply, square, halve, double/triple/quadruple/octuple, multiply by any signed 32-bit integer, sums and differences of two products, integer exponentiation, conversion from machine integers, selection, conditional move/negate/swap) returns the residue that integer arithmetic modulo p gives, in canonical form. By-value, by-reference and in-place forms agree, whatever the operands are and however results are chained.",
  ["inputs","histories"],"all operand values, in particular those whose plain or internal representation has extreme limbs (0, all ones, carries, near p), and all sequences of in-place operations",
  "The existing field test covers 100 hash-derived operands: the limb patterns at which carries, borrows and final subtractions go wrong have negligible probability there; several operations are never called.",
  [S+"finitefield/fp_gen.rs",S+"finitefield/utils64.rs",S+"fields.rs"],[("Montgomery arithmetic","src/finitefield/fp_gen.rs define_fp_core")],[("Fp([u64;N])","Montgomery representation, canonical in [0,p)","src/finitefield/fp_gen.rs")],["encode() of the result"],None)
p("P06","Inversion, division and quadratic character are exact for every element",
  "For every x, the inverse of a nonzero x multiplied by x is one, the inverse of zero and every quotient by zero is zero, x/y equals x times the inverse of y, and the quadratic character is 0 for zero, 1 for nonzero squares and -1 otherwise. This holds in the base field and in its quadratic extension.",
  ["inputs"],"all operand pairs, including structured values on which the binary GCD takes its extreme paths (1, -1, powers of two and their inverses, values near p, equal operands)",
  "The tests sample 100 pseudo-random values; inner-loop approximations of the GCD go wrong only for special operands.",
  [S+"finitefield/fp_gen.rs",S+"finitefield/fp2_gen.rs"],[("set_div, legendre","src/finitefield/fp_gen.rs"),("set_div, set_invert, legendre","src/finitefield/fp2_gen.rs")],None,["return values"],None)
p("P07","Square and fourth roots exist exactly when reported and follow the sign rule",
  "In the base field and in its quadratic extension, the root functions report success exactly when the element has a square (respectively fourth) root; on success the returned element raised to the second (fourth) power is the input and has the documented canonical sign, on failure the documented value is returned. This includes zero, real elements, purely imaginary elements and elements whose norm is a special value.",
  ["inputs"],"all field elements, including zero, real and purely imaginary ones",
  "The extension-field test is compiled into no test module, and the base-field test samples 100 values; degenerate elements (real or imaginary part zero) are never tried.",
  [S+"finitefield/fp_gen.rs",S+"finitefield/fp2_gen.rs"],[("set_sqrt, set_fourth_root","src/finitefield/fp_gen.rs and fp2_gen.rs")],None,["(root, status)"],None)
p("P08","Quadratic-extension operations equal arithmetic in Fp[i] on every operand",
  "Every operation of the quadratic extension (ring operations, both multiplication algorithms, conjugation, small multiples, selection and conditional operations, every form of exponentiation, batch inversion of lists of any length with zeros anywhere) returns what the field Fp[i] with i*i = -1 prescribes. Equality and zero tests and hashing agree with equality of values.",
  ["inputs","histories"],"all operands and exponents (0, 1, all bit lengths) and all list shapes for batch inversion",
  "The extension-field test macro is never instantiated, so no test checks any extension-field operation directly.",
  [S+"finitefield/fp2_gen.rs",S+"fields.rs"],[("define_fp2_core","src/finitefield/fp2_gen.rs")],None,["encode() of the result"],None)
p("P09","Field encodings are canonical, injective and fixed length",
  "Every field element encodes to the fixed number of bytes holding its least residue in little-endian order, decoding an encoding returns the element, and decoding any other byte string of the right length (value at least p) or of a wrong length is rejected with the failure indication and zero. Reducing decoding accepts byte strings of every length and returns the integer modulo p.",
  ["inputs"],"all byte strings of every length, in particular integers p-1, p, p+1, 2^k boundaries, and lengths one off the standard one",
  "Tests decode a few stored encodings only; out-of-range and wrong-length inputs and long strings for reduction boundaries are not tried.",
  [S+"finitefield/fp_gen.rs",S+"finitefield/fp2_gen.rs"],[("encode/decode/decode_reduce","src/finitefield/fp_gen.rs")],None,["encode(), decode() results"],None)
p("P10","Point addition is the complete group law of the curve",
  "For every curve and every pair of points on it, addition, subtraction, doubling, repeated doubling and negation return the group-law result as a point on the curve, whatever projective representatives are given; this includes the point at infinity, equal points, opposite points and points of order two. Point equality is equality of the represented points.",
  ["inputs"],"all pairs of points of all curves (including every special pair) and all projective representatives",
  "Tests reach group operations only through random points of large order, where the special cases never meet.",
  [S+"eccore.rs"],[("add_into, double_into, equals","src/eccore.rs define_ec_core")],None,["affine coordinates of the result"],
  "toy parameter module (cfg festa_verif) for exhaustive group tables")
p("P11","Scalar multiplication agrees with repeated addition for every scalar and point",
  "For every point P of a curve and every non-negative integer n (zero, one, bounds of the word size, the point's order, that order plus or minus one, integers longer than the group order, any declared bit length) all scalar multiplication functions return the n-fold sum of P. This also holds when P is the point at infinity or has order two or any other small order.",
  ["inputs"],"all points x all scalars, including those at which the ladder's intermediate points become infinity or coincide",
  "Existing tests multiply random points by group orders only; n = 0, +-1 around the order, 2-torsion points and infinity are never tried.",
  [S+"eccore.rs"],[("mul_into (x-only ladder with y recovery), mul_small_into, mul_big","src/eccore.rs")],None,["affine coordinates of the result"],"as P10")
p("P12","Point validation, lifting, enumeration and sampling produce exactly curve points",
  "A coordinate pair or triple is accepted exactly when it satisfies the curve equation (invalid ones yield the neutral element and the failure indication), lifting an x-coordinate succeeds exactly when it belongs to a point of the curve and returns such a point, and conversions between affine and projective forms preserve the point. The deterministic point enumeration and the random sampler only ever return points on the curve, and the enumeration is the same on every run.",
  ["inputs"],"all curves, all coordinate values (on the curve, on its quadratic twist, at infinity)",
  "Only on-curve outputs of one enumeration are printed; rejected inputs and lifts of twist coordinates are never checked.",
  [S+"eccore.rs"],[("set_xy, set_xyz, on_curve, complete_pointX, CurveIter, set_rand_point","src/eccore.rs")],None,["returned point and status"],None)
p("P13","Torsion bases have exact order, are independent and are reproducible",
  "For every supersingular curve with full rational torsion and every supported torsion group, the basis functions return two on-curve points of exactly the requested order that generate the whole torsion subgroup; this holds for the generic odd and the optimised power-of-two construction. Calling again for the same curve returns the same points, so that both parties derive the same basis.",
  ["inputs","histories"],"all supersingular curves reached by isogenies x all factored torsion degrees in use",
  "Tests look at the starting curve or a handful of curves and one pairing order; exactness at every prime factor and reproducibility are not asserted.",
  [S+"supersingular.rs",S+"eccore.rs"],[("torsion_basis, entangled_torsion_basis, generate_point_order_factored_D, clear_cofactor","src/supersingular.rs")],None,["returned points"],None)
p("P14","Order tests accept exactly the elements of the stated order",
  "For every factored order D and every curve point or field element annihilated by D, the order test answers true exactly when the element's order equals D, regardless of how many prime factors D has, of their multiplicities and of their sequence. Elements missing any single prime factor, and the neutral element, are always rejected.",
  ["inputs"],"all factorisations (one factor, several, repeated, permuted) x all elements whose order divides D",
  "The predicates are used inside other functions only and never tested on elements of a wrong order.",
  [S+"supersingular.rs"],[("point_has_factored_order, has_factored_order with the batch cofactor tree","src/supersingular.rs")],None,["boolean result"],None)
p("P15","The Weil and Tate pairings are the bilinear, non-degenerate pairings",
  "For every order n and all points P, Q, R annihilated by n, the pairing value is an n-th root of unity, is one exactly when the points are linearly dependent at full order, satisfies e(aP+bR,Q) = e(P,Q)^a e(R,Q)^b and e(P,Q) e(Q,P) = 1, and does not depend on the projective representative. In particular e(P,P), e(P,kP) and pairings with multiples of a basis point are one or the prescribed power, for odd and even n. The Tate pairing raised to (p^2-1)/n is bilinear in the same way, never zero, and agrees with the Weil pairing e(P,[(p+1)/n]Q) up to inversion, for every point Q of the curve.",
  ["inputs"],"all pairs of n-torsion points, including dependent pairs, points of lower order and the point at infinity, for odd, even and prime-power n",
  "The two tests print pairings or check bilinearity for one independent pair; dependent and lower-order pairs are never tried (and one of the tests fails already).",
  [S+"pairing.rs"],[("tate_pairing Miller loop, weil_pairing","src/pairing.rs")],None,["pairing value"],None)
p("P16","Discrete logarithms are found exactly for every exponent",
  "Whenever an element is a power of a generator of the given smooth order, the discrete logarithm returned is the unique exponent below that order, for every exponent including zero, one, order minus one and multiples of prime factors. For a torsion basis, the two-dimensional logarithm of every point of the group, including infinity, basis points, their negatives and multiples and points of lower order, returns the unique coefficient pair.",
  ["inputs"],"all exponents / coefficient pairs for all (factored) orders",
  "One test solves a single random two-dimensional instance; zero coefficients and non-generator targets are not tried.",
  [S+"discrete_log.rs"],[("bsgs, ph_dlp_power, ph_dlp, bidlp","src/discrete_log.rs")],None,["returned exponents"],None)
p("P17","Modular inversion, remaindering and integer square root helpers are exact",
  "For coprime positive integers the modular-inverse helper returns the least non-negative inverse, the Chinese-remainder helper returns the unique residue below the product that matches every remainder, and the integer square root helper returns the floor of the square root for every 32-bit value. Results never depend on the relative size of the arguments or on the order of the factors.",
  ["inputs"],"all coprime pairs (either one larger, modulus one, argument one), all factor lists and remainders, all 32-bit integers",
  "One fixed example each is tested; the extremes of the 32-bit range and argument orderings are not.",
  [S+"discrete_log.rs"],[("xgcd_big, compute_crt, sqrt_floor","src/discrete_log.rs")],None,["return values"],None)
p("P18","Odd-degree isogeny chains are isogenies with exactly the requested kernel",
  "For every curve, odd smooth degree and kernel point of that exact order, the chain maps the curve to a supersingular curve of the same cardinality, sends exactly the kernel to infinity, is a group homomorphism on the evaluated points (up to the documented sign), multiplies pairings by the degree in the exponent, and its codomain depends on the kernel subgroup only. This holds for each factorisation order, repeated prime, small prime 3 and for every chain length.",
  ["inputs","configurations"],"all curves x all kernel subgroups x all odd smooth degrees and strategies",
  "Two tests evaluate one chain each and check the order of an image; kernel, degree and homomorphism are not asserted.",
  [S+"isogeny.rs",S+"supersingular.rs"],[("KummerLineIsogeny, factored_kummer_isogeny, evaluate_isogeny_chain(_for_basis)","src/isogeny.rs")],None,["codomain constant, image points"],"toy parameter module (cfg festa_verif) for all kernels of small curves")
p("P19","Kernel scalars are recovered from images of a basis for every kernel",
  "For every odd smooth order and every scalar s below it, whenever two points generate the subgroup spanned by first-plus-s-times-second basis point, the recovery function returns exactly s. This includes s = 0, s sharing factors with the order, and generating pairs in which one point is infinity, has lower order or has a first coefficient divisible by some of the primes.",
  ["inputs"],"all scalars x all generating pairs of the subgroup",
  "No test calls the recovery function outside the unasserted end-to-end run.",
  [S+"supersingular.rs",S+"discrete_log.rs"],[("compute_canonical_kernel","src/supersingular.rs")],None,["returned scalar"],None)
p("P20","The two-dimensional isogeny chain computes the isogeny with the given kernel",
  "For every product of two supersingular curves and every maximal isotropic kernel of the form the system uses, the chain ends on a product of two supersingular Montgomery curves, maps points of coprime order to points of the same order on it, sends the kernel to infinity and is a homomorphism up to the documented sign: the product of the component pairings of images equals the product of the pairings of the inputs raised to the degree. The image curves agree with those predicted by the isogeny diamond that defines the kernel.",
  ["inputs","configurations"],"all products, kernels and evaluation points arising from key pairs and messages, and all kernels from isogeny diamonds over toy fields",
  "The only direct test of the chain fails on the unmodified tree and asserts nothing about images.",
  [S+"theta.rs"],[("gluing_isogeny, two_isogeny, two_isogeny_to_product, split_to_product","src/theta.rs")],None,["returned curves and couple points"],"toy parameter module (cfg festa_verif)")
p("P21","Chain results do not depend on the evaluation strategy",
  "For every chain length and every valid doubling strategy the two-dimensional chain returns the same codomain and images as the strategy-free computation, and the stored strategy for the production chain length is valid. Likewise the result of an odd isogeny chain does not depend on how its prime-power steps are split.",
  ["configurations","inputs"],"all chain lengths up to the production length x all valid strategies",
  "Tests use one strategy and never compare it with the plain computation.",
  [S+"theta.rs",S+"isogeny.rs",S+"fields.rs"],[("product_isogeny strategy loop","src/theta.rs"),("THETA_STRATEGY","src/fields.rs"),("recursive_sparse_isogeny","src/isogeny.rs")],[("strat_pts / level bookkeeping","kernel multiples saved at each level","src/theta.rs")],["returned curves and couple points"],"toy parameter module (cfg festa_verif)")
p("P22","Curve isomorphisms map onto the codomain and respect the group structure",
  "For every two Montgomery curves with the same j-invariant the isomorphism sends every point of the first to a point of the second, sends infinity to infinity, preserves orders and pairings and is a group homomorphism. This includes equal curves, curves differing by the sign of their coefficient, and both special j-invariants.",
  ["inputs"],"all ordered pairs of isomorphic Montgomery curves x all points",
  "One stored pair of curves is tested; sign-opposite, equal and special curves are not.",
  [S+"eccore.rs"],[("CurveIsomorphism::new, eval","src/eccore.rs")],None,["image point"],"toy parameter module (cfg festa_verif)")
p("P23","Published parameters satisfy the relations the scheme relies on",
  "The public constants are mutually consistent: the field characteristic has the stated bit length and is 3 modulo 4, one more than it is divisible by the masking modulus and by both message bounds and step degrees, each factored constant multiplies out to its integer with distinct odd primes, the degrees are pairwise coprime, and the weighted sum of the two total degrees equals the power of two that the two-dimensional chain splits. The two multipliers are odd and prime to the message bounds they act on, and the stored step sequence and encoding lengths belong to these constants.",
  ["configurations"],"the single published parameter set and everything derived from it at construction",
  "No test relates the constants to each other; a changed constant shows up, if at all, only as a wrong or failing inversion which no test asserts.",
  [S+"fields.rs",S+"festa.rs"],[("FpFESTA, FpFESTAExt constants","src/fields.rs"),("FESTACrypto::new","src/festa.rs")],None,["public constants"],None)
p("P24","Theta structures and products of curves compute the group law",
  "For every level-two theta structure whose null point and dual have no zero coordinate, doubling a point gives the double of that point whatever common factor the coordinates carry, on a product structure the doubles of both components, and doubling n times is the n-fold composition fixing the identity. On a product of two curves addition, doubling and repeated doubling of a pair act component by component, for every pair including equal, opposite, low-order and infinite components.",
  ["inputs"],"all structures with non-vanishing coordinates x all points x all doubling counts; all pairs of couple points",
  "No test calls the theta doubling or the product arithmetic directly; a wrong coordinate would at best show in a test that fails already.",
  [S+"theta.rs",S+"eccore.rs"],[("ThetaStructure::set_double_self, double_iter, precomputation","src/theta.rs"),("EllipticProduct::add, double, double_iter","src/eccore.rs")],None,["point coordinates"],"toy parameter module (cfg festa_verif)")
p("P25","Random choices reach every admissible value, afresh at every call",
  "Sampled field elements, non-squares, curve points, torsion points of given order, random isogeny walks and generated keys take every value of the set they are documented to draw from and no other: both coordinates of an extension-field element, both points above an abscissa, every point of the exact order, every cyclic kernel at every step of a walk, every odd mask below the masking modulus. Distinct calls are independent: successive draws, the two masks of a key, the two coordinates of an element and keys generated in succession or in parallel are not tied to each other.",
  ["inputs","histories"],"every random source state; all admissible values of each draw",
  "The tests draw once; a source that leaves out half of its range or repeats itself passes every test and every round trip.",
  [S+"festa.rs",S+"supersingular.rs",S+"eccore.rs",S+"finitefield/fp_gen.rs",S+"finitefield/fp2_gen.rs"],
  [("keygen","src/festa.rs"),("generate_random_point_order_factored_D, random_isogeny_x_only","src/supersingular.rs"),("rand_point","src/eccore.rs"),("set_rand, set_rand_nonsquare","src/finitefield/fp_gen.rs, fp2_gen.rs")],None,["the values returned"],"toy parameter module (cfg festa_verif), so that all admissible values can be enumerated")
p("P26","Equality, hash codes and printed forms depend on the represented value alone",
  "Two field elements compare equal (by every comparison offered) exactly when they are the same residue, however they were computed, and equal elements have equal hashes and hash codes and behave as one entry of a hash set, while distinct ones hash and print differently; the hash code of an extension-field element combines those of its coordinates as documented. Two messages compare equal exactly when all four of their integers agree. Field elements, curves and messages print their integers in decimal, in full and in order.",
  ["inputs"],"all pairs of values, in particular those that differ in one digit or coordinate only, and all computations that lead to the same value",
  "Tests compare a few results with expected ones that are equal; unequal values, and equal ones reached in other ways, are not compared.",
  [S+"finitefield/fp_gen.rs",S+"finitefield/fp2_gen.rs",S+"festa.rs",S+"eccore.rs"],[("PartialEq, Hash, hashcode, Display","src/finitefield/fp_gen.rs, fp2_gen.rs"),("PartialEq, Display of TrapdoorInput","src/festa.rs"),("Display of Curve","src/eccore.rs")],None,["results of ==, hash, to_string"],None)
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80,q["id"]+str(len(q["title"]))
        f.write(json.dumps(q)+"\n")
print(len(P))
