// Toy replacement of src/fields.rs (see tools/mktoy.py): the same constants for a
// small prime, the real quadratic extension, and a plain-integer base field whose
// prime can be replaced at run time (FESTA_TOY_P).
#[allow(non_snake_case)]
pub mod FpFESTA {
    use core::ops::*;
    use num_bigint::BigUint;
    use rand_core::{CryptoRng, RngCore};
    use std::fmt;
    use std::hash::{Hash, Hasher};
    use std::sync::OnceLock;

    const MINUS1: u64 = u64::MAX;
    static PRIME: OnceLock<u64> = OnceLock::new();
    #[inline(always)]
    fn p() -> u64 {
        *PRIME.get_or_init(|| match std::env::var("FESTA_TOY_P") {
            Ok(s) => s.parse().unwrap(),
            Err(_) => 2007407001599,
        })
    }

    pub fn prime() -> u64 {
        p()
    }

    /// value below the prime, or MINUS1 for p - 1
    #[derive(Clone, Copy, Debug)]
    pub struct Fp(u64);

    #[allow(dead_code)]
    impl Fp {
        pub const ZERO: Self = Fp(0);
        pub const ONE: Self = Fp(1);
        pub const TWO: Self = Fp(2);
        pub const THREE: Self = Fp(3);
        pub const FOUR: Self = Fp(4);
        pub const MINUS_ONE: Self = Fp(MINUS1);
        pub const BIT_LENGTH: usize = 41;
        pub const N: usize = 1;
        pub const MODULUS: [u64; 1] = [2007407001599];
        pub const ENCODED_LENGTH: usize = 8;
        pub const fn new(input: [u64; 1]) -> Self {
            Fp(input[0])
        }
        #[inline(always)]
        fn g(self) -> u64 {
            if self.0 == MINUS1 {
                p() - 1
            } else {
                self.0
            }
        }
        fn m(x: bool) -> u32 {
            if x {
                u32::MAX
            } else {
                0
            }
        }
        pub fn from_i32(x: i32) -> Self {
            Self::from_i64(x as i64)
        }
        pub fn from_i64(x: i64) -> Self {
            Fp((x as i128).rem_euclid(p() as i128) as u64)
        }
        pub fn from_u32(x: u32) -> Self {
            Fp(x as u64 % p())
        }
        pub fn from_u64(x: u64) -> Self {
            Fp(x % p())
        }
        pub fn iszero(self) -> u32 {
            Self::m(self.g() == 0)
        }
        pub fn equals(self, rhs: &Self) -> u32 {
            Self::m(self.g() == rhs.g())
        }
        fn set_add(&mut self, rhs: &Self) {
            *self = Fp(((self.g() as u128 + rhs.g() as u128) % p() as u128) as u64)
        }
        fn set_sub(&mut self, rhs: &Self) {
            *self = Fp(((self.g() as u128 + p() as u128 - rhs.g() as u128) % p() as u128) as u64)
        }
        pub fn set_neg(&mut self) {
            let mut r = Fp(0);
            r.set_sub(self);
            *self = r
        }
        fn set_mul(&mut self, rhs: &Self) {
            *self = Fp((self.g() as u128 * rhs.g() as u128 % p() as u128) as u64)
        }
        pub fn set_square(&mut self) {
            let r = *self;
            self.set_mul(&r)
        }
        pub fn square(self) -> Self {
            self * self
        }
        pub fn set_half(&mut self) {
            let g = self.g();
            *self = Fp(if g & 1 == 1 { ((g as u128 + p() as u128) / 2) as u64 } else { g / 2 })
        }
        pub fn half(self) -> Self {
            let mut r = self;
            r.set_half();
            r
        }
        pub fn set_mul_small(&mut self, k: i32) {
            let t = Self::from_i32(k);
            self.set_mul(&t)
        }
        pub fn mul_small(self, k: i32) -> Self {
            let mut r = self;
            r.set_mul_small(k);
            r
        }
        pub fn set_mul2(&mut self) {
            self.set_mul_small(2)
        }
        pub fn mul2(self) -> Self {
            self.mul_small(2)
        }
        pub fn set_mul3(&mut self) {
            self.set_mul_small(3)
        }
        pub fn mul3(self) -> Self {
            self.mul_small(3)
        }
        pub fn set_mul4(&mut self) {
            self.set_mul_small(4)
        }
        pub fn mul4(self) -> Self {
            self.mul_small(4)
        }
        pub fn set_mul8(&mut self) {
            self.set_mul_small(8)
        }
        pub fn mul8(self) -> Self {
            self.mul_small(8)
        }
        pub fn set_select(&mut self, a: &Self, b: &Self, ctl: u32) {
            *self = if ctl != 0 { *b } else { *a }
        }
        pub fn select(a: &Self, b: &Self, ctl: u32) -> Self {
            if ctl != 0 {
                *b
            } else {
                *a
            }
        }
        pub fn set_cond(&mut self, rhs: &Self, ctl: u32) {
            if ctl != 0 {
                *self = *rhs
            }
        }
        pub fn set_condneg(&mut self, ctl: u32) {
            if ctl != 0 {
                self.set_neg()
            }
        }
        pub fn condswap(a: &mut Self, b: &mut Self, ctl: u32) {
            if ctl != 0 {
                std::mem::swap(a, b)
            }
        }
        fn set_div(&mut self, y: &Self) {
            let t = y.invert();
            self.set_mul(&t)
        }
        pub fn set_invert(&mut self) {
            *self = self.powu(p() - 2)
        }
        pub fn invert(self) -> Self {
            self.powu(p() - 2)
        }
        fn powu(self, mut e: u64) -> Self {
            let mut r = Fp(1 % p());
            let mut b = self;
            while e > 0 {
                if e & 1 == 1 {
                    r.set_mul(&b)
                }
                b.set_square();
                e >>= 1
            }
            r
        }
        pub fn set_sqrt(&mut self) -> u32 {
            let mut s = self.powu((p() + 1) / 4);
            if s.square().g() != self.g() {
                *self = Fp(0);
                return 0;
            }
            if s.g() & 1 == 1 {
                s.set_neg()
            }
            *self = s;
            u32::MAX
        }
        pub fn sqrt(self) -> (Self, u32) {
            let mut r = self;
            let c = r.set_sqrt();
            (r, c)
        }
        pub fn set_fourth_root(&mut self) -> u32 {
            let (r, c) = self.sqrt();
            if c == 0 {
                *self = Fp(0);
                return 0;
            }
            let (a, c1) = r.sqrt();
            let (b, _) = (-r).sqrt();
            let mut s = if c1 != 0 { a } else { b };
            if s.g() & 1 == 1 {
                s.set_neg()
            }
            *self = s;
            u32::MAX
        }
        pub fn fourth_root(self) -> (Self, u32) {
            let mut r = self;
            let c = r.set_fourth_root();
            (r, c)
        }
        pub fn set_pow(&mut self, e: &[u8], ebitlen: usize) {
            self.set_pow_ext(e, 0, ebitlen)
        }
        pub fn set_pow_ext(&mut self, e: &[u8], eoff: usize, ebitlen: usize) {
            let b = *self;
            let mut r = Fp(1);
            for i in (eoff..eoff + ebitlen).rev() {
                r.set_square();
                if (e[i >> 3] >> (i & 7)) & 1 == 1 {
                    r.set_mul(&b)
                }
            }
            *self = r
        }
        pub fn pow(self, e: &[u8], ebitlen: usize) -> Self {
            let mut r = self;
            r.set_pow(e, ebitlen);
            r
        }
        pub fn pow_big(self, e: &BigUint) -> Self {
            self.pow(&e.to_bytes_le(), e.bits() as usize)
        }
        pub fn pow_ext(self, e: &[u8], eoff: usize, ebitlen: usize) -> Self {
            let mut r = self;
            r.set_pow_ext(e, eoff, ebitlen);
            r
        }
        pub fn legendre(self) -> i32 {
            let l = self.powu((p() - 1) / 2).g();
            if l == 0 {
                0
            } else if l == 1 {
                1
            } else {
                -1
            }
        }
        pub fn encode(self) -> [u8; Self::ENCODED_LENGTH] {
            self.g().to_le_bytes()
        }
        pub fn decode(buf: &[u8]) -> (Self, u32) {
            if buf.len() != 8 {
                return (Fp(0), 0);
            }
            let v = u64::from_le_bytes(buf.try_into().unwrap());
            if v < p() {
                (Fp(v), u32::MAX)
            } else {
                (Fp(0), 0)
            }
        }
        pub fn set_decode_reduce(&mut self, buf: &[u8]) {
            let mut r = Fp(0);
            for b in buf.iter().rev() {
                r = r.mul_small(256) + Fp::from_u32(*b as u32)
            }
            *self = r
        }
        pub fn decode_reduce(buf: &[u8]) -> Self {
            let mut r = Fp(0);
            r.set_decode_reduce(buf);
            r
        }
        pub fn set_rand<T: CryptoRng + RngCore>(&mut self, rng: &mut T) {
            let mut b = [0u8; 24];
            rng.fill_bytes(&mut b);
            self.set_decode_reduce(&b)
        }
        pub fn rand<T: CryptoRng + RngCore>(rng: &mut T) -> Self {
            let mut r = Fp(0);
            r.set_rand(rng);
            r
        }
        pub fn hashcode(self) -> u64 {
            self.g().wrapping_mul(0x9E3779B97F4A7C15)
        }
        pub fn sum_of_products(a1: &Self, b1: &Self, a2: &Self, b2: &Self) -> Fp {
            *a1 * *b1 + *a2 * *b2
        }
        pub fn difference_of_products(a1: &Self, b1: &Self, a2: &Self, b2: &Self) -> Fp {
            *a1 * *b1 - *a2 * *b2
        }
    }
    impl fmt::Display for Fp {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{}", self.g())
        }
    }
    macro_rules! binop {
        ($tr:ident, $f:ident, $tra:ident, $fa:ident, $set:ident) => {
            impl $tr<Fp> for Fp {
                type Output = Fp;
                #[inline(always)]
                fn $f(self, o: Fp) -> Fp {
                    let mut r = self;
                    r.$set(&o);
                    r
                }
            }
            impl $tr<&Fp> for Fp {
                type Output = Fp;
                #[inline(always)]
                fn $f(self, o: &Fp) -> Fp {
                    let mut r = self;
                    r.$set(o);
                    r
                }
            }
            impl $tr<Fp> for &Fp {
                type Output = Fp;
                #[inline(always)]
                fn $f(self, o: Fp) -> Fp {
                    let mut r = *self;
                    r.$set(&o);
                    r
                }
            }
            impl $tr<&Fp> for &Fp {
                type Output = Fp;
                #[inline(always)]
                fn $f(self, o: &Fp) -> Fp {
                    let mut r = *self;
                    r.$set(o);
                    r
                }
            }
            impl $tra<Fp> for Fp {
                #[inline(always)]
                fn $fa(&mut self, o: Fp) {
                    self.$set(&o)
                }
            }
            impl $tra<&Fp> for Fp {
                #[inline(always)]
                fn $fa(&mut self, o: &Fp) {
                    self.$set(o)
                }
            }
        };
    }
    binop!(Add, add, AddAssign, add_assign, set_add);
    binop!(Sub, sub, SubAssign, sub_assign, set_sub);
    binop!(Mul, mul, MulAssign, mul_assign, set_mul);
    binop!(Div, div, DivAssign, div_assign, set_div);
    impl Neg for Fp {
        type Output = Fp;
        fn neg(self) -> Fp {
            let mut r = self;
            r.set_neg();
            r
        }
    }
    impl Neg for &Fp {
        type Output = Fp;
        fn neg(self) -> Fp {
            let mut r = *self;
            r.set_neg();
            r
        }
    }
    impl Hash for Fp {
        fn hash<H: Hasher>(&self, state: &mut H) {
            self.g().hash(state)
        }
    }
}

#[allow(non_upper_case_globals, non_snake_case)]
pub mod FpFESTAExt {
    use super::FpFESTA::Fp;
    use num_bigint::BigUint;
    const NQR_RE: Fp = Fp::new([6]);
    pub const P0x: Fp = Fp::new([1]);
    pub const P0y: Fp = Fp::new([1]);
    pub const Q0x: Fp = Fp::new([1]);
    pub const Q0y: Fp = Fp::new([1]);
    pub const D1: [u32; 1] = [117];
    pub const D1_FACTORED: [(u32, u32); 2] = [(3, 2), (13, 1)];
    pub const D2: [u32; 1] = [275];
    pub const D2_FACTORED: [(u32, u32); 2] = [(5, 2), (11, 1)];
    pub const DA: [u32; 1] = [14161];
    pub const DA_FACTORED: [(u32, u32); 2] = [(7, 2), (17, 2)];
    pub const DA1: [u32; 1] = [49];
    pub const DA1_FACTORED: [(u32, u32); 1] = [(7, 1)];
    pub const DA2: [u32; 1] = [289];
    pub const DA2_FACTORED: [(u32, u32); 1] = [(17, 1)];
    pub const M1: [u32; 1] = [3];
    pub const M2: [u32; 1] = [1];
    pub const L_POWER: u32 = 19;
    pub const THETA_ISOGENY_LENGTH: u32 = 17;
    pub static BASIS_ORDER: std::sync::LazyLock<Vec<u32>> = std::sync::LazyLock::new(|| {
        (super::FpFESTA::prime() + 1).to_le_bytes().chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
    });
    pub static BIGUINT_MODULUS: std::sync::LazyLock<Vec<u32>> = std::sync::LazyLock::new(|| {
        (super::FpFESTA::prime() + 0).to_le_bytes().chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
    });
    pub const THETA_STRATEGY: [usize; 16] = [6, 4, 2, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1];

    crate::finitefield::fp2_gen::define_fp2_core! {}
}
