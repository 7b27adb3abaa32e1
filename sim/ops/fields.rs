//! Coefficient types and monomial orders owned by the simulator: every operation the library
//! performs on them is a callback at which the run may be suspended, unwound or re-entered.
use algeo::core::num::{EpsilonEquality, Field, Integer, One, Rational, StabilityCmp, Zero};
use algeo::poly::elts::Polynomial;
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::{GRevLex, GrLex, Lex, MonomialOrder, RevLex};
use simrt::calls::{callback, order, pivot_choice, set_order};
use simrt::rng::{mix, Rng};
use std::cmp::Ordering;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;

// --- the prime field ---------------------------------------------------------------------------

#[derive(Clone, Copy)]
pub struct Gf<const P: u64>(pub u64);

impl<const P: u64> Gf<P> {
    fn raw_inv(self) -> Self {
        if self.0 == 0 {
            panic!("division by zero in GF({})", P)
        }
        let (mut b, mut e, mut r) = (self.0 as u128, P - 2, 1u128);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % P as u128;
            }
            b = b * b % P as u128;
            e >>= 1;
        }
        Gf(r as u64)
    }
    fn raw_add(self, o: Self) -> Self {
        Gf((self.0 + o.0) % P)
    }
    fn raw_sub(self, o: Self) -> Self {
        Gf((self.0 + P - o.0) % P)
    }
    fn raw_mul(self, o: Self) -> Self {
        Gf((self.0 as u128 * o.0 as u128 % P as u128) as u64)
    }
    fn raw_div(self, o: Self) -> Self {
        self.raw_mul(o.raw_inv())
    }
}
impl<const P: u64> PartialEq for Gf<P> {
    fn eq(&self, o: &Self) -> bool {
        flip(callback(), self.0 == o.0)
    }
}
impl<const P: u64> PartialOrd for Gf<P> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        rank(callback(), self.0.partial_cmp(&o.0))
    }
}
impl<const P: u64> fmt::Debug for Gf<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if callback() != 0 {
            return Err(fmt::Error);
        }
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> fmt::Display for Gf<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if callback() != 0 {
            return Err(fmt::Error);
        }
        write!(f, "{}", self.0)
    }
}

macro_rules! newtype_field {
    ([$($g:tt)*] $T:ty, $zero:expr, $one:expr, $add:ident $sub:ident $mul:ident $div:ident) => {
        impl $($g)* Add for $T { type Output = Self; fn add(self, o: Self) -> Self { let l = callback(); Self::bend(l, self.$add(o)) } }
        impl $($g)* Sub for $T { type Output = Self; fn sub(self, o: Self) -> Self { let l = callback(); Self::bend(l, self.$sub(o)) } }
        impl $($g)* Mul for $T { type Output = Self; fn mul(self, o: Self) -> Self { let l = callback(); Self::bend(l, self.$mul(o)) } }
        impl $($g)* Div for $T { type Output = Self; fn div(self, o: Self) -> Self { let l = callback(); Self::bend(l, self.$div(o)) } }
        impl $($g)* Neg for $T { type Output = Self; fn neg(self) -> Self { let l = callback(); Self::bend(l, <$T>::ZERO.$sub(self)) } }
        impl $($g)* AddAssign for $T { fn add_assign(&mut self, o: Self) { let l = callback(); *self = Self::bend(l, self.$add(o)) } }
        impl $($g)* SubAssign for $T { fn sub_assign(&mut self, o: Self) { let l = callback(); *self = Self::bend(l, self.$sub(o)) } }
        impl $($g)* MulAssign for $T { fn mul_assign(&mut self, o: Self) { let l = callback(); *self = Self::bend(l, self.$mul(o)) } }
        impl $($g)* DivAssign for $T { fn div_assign(&mut self, o: Self) { let l = callback(); *self = Self::bend(l, self.$div(o)) } }
        impl $($g)* Sum for $T { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| { let l = callback(); Self::bend(l, a.$add(b)) }) } }
        impl $($g)* Product for $T { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| { let l = callback(); Self::bend(l, a.$mul(b)) }) } }
        impl $($g)* Zero for $T { const ZERO: Self = $zero; fn is_zero(&self) -> bool { flip(callback(), self.raw_is_zero()) } }
        impl $($g)* One for $T { const ONE: Self = $one; fn is_one(&self) -> bool { flip(callback(), self.raw_is_one()) } }
        impl $($g)* Field for $T {
            fn powi32(&self, p: i32) -> Self {
                let l = callback();
                let mut r = Self::ONE;
                for _ in 0..p.unsigned_abs() { r = r.$mul(*self); }
                Self::bend(l, if p < 0 { Self::ONE.$div(r) } else { r })
            }
            fn inv(self) -> Self { let l = callback(); Self::bend(l, Self::ONE.$div(self)) }
        }
        impl $($g)* StabilityCmp for $T {
            fn stability_cmp(&self, o: &Self) -> Option<Ordering> {
                let l = callback();
                rank(l, Some(match (self.raw_is_zero(), o.raw_is_zero()) {
                    (true, true) => Ordering::Equal,
                    (true, false) => Ordering::Less,
                    (false, true) => Ordering::Greater,
                    (false, false) => match pivot_choice(self.pivot_key(), o.pivot_key()) { Some(c) => c, None => self.raw_stab(o) },
                }))
            }
        }
        impl $($g)* EpsilonEquality for $T {
            fn epsilon_equals(&self, o: &Self) -> bool { flip(callback(), self.raw_eq(o)) }
        }
    };
}
// What an answer turns into if it is to be wrong.
pub fn flip(lie: u64, b: bool) -> bool {
    b ^ (lie != 0)
}
pub fn rank(lie: u64, o: Option<Ordering>) -> Option<Ordering> {
    match lie >> 1 & 15 {
        _ if lie == 0 => o,
        0 => None,
        1..=5 => Some(Ordering::Less),
        6..=10 => Some(Ordering::Equal),
        _ => Some(Ordering::Greater),
    }
}
impl<const P: u64> Gf<P> {
    /// Possibly not even reduced modulo P.
    fn bend(lie: u64, x: Self) -> Self {
        match lie >> 1 & 7 {
            _ if lie == 0 => x,
            0..=2 => Gf(0),
            3 => Gf(P + (lie >> 8) % 9),
            _ => Gf((lie >> 8) % P),
        }
    }
    fn raw_is_zero(&self) -> bool {
        self.0 == 0
    }
    fn raw_is_one(&self) -> bool {
        self.0 == 1
    }
    fn raw_eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn raw_stab(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
    fn pivot_key(&self) -> u64 {
        self.0
    }
}
newtype_field! { [<const P: u64>] Gf<P>, Gf(0), Gf(1), raw_add raw_sub raw_mul raw_div }

pub fn lowest(n: i128, d: i128) -> (i128, i128) {
    let (mut a, mut b) = (n.abs(), d.abs());
    while b != 0 {
        let r = a % b;
        a = b;
        b = r;
    }
    let g = if a == 0 { 1 } else { a };
    let g = if d < 0 { -g } else { g };
    (n / g, d / g)
}

// --- the library's own rationals behind callbacks -------------------------------------------------

#[derive(Clone, Copy)]
pub struct Pq(pub Rational);
impl Pq {
    fn bend(lie: u64, x: Self) -> Self {
        let v = (lie >> 8) % 7;
        match lie >> 1 & 7 {
            _ if lie == 0 => x,
            0..=2 => Pq(Rational::ZERO),
            // Neither in lowest terms nor with a denominator that may be divided by.
            3 => Pq(Rational { numer: Integer(v as i64), denom: Integer(0) }),
            4 => Pq(Rational { numer: Integer(v as i64 * 2), denom: Integer(-4) }),
            5 => Pq(Rational { numer: Integer(i64::MIN), denom: Integer(1) }),
            _ => Pq(Rational { numer: Integer(v as i64 - 3), denom: Integer(1 + (lie >> 16) as i64 % 4) }),
        }
    }
    fn raw_add(self, o: Self) -> Self {
        Pq(self.0 + o.0)
    }
    fn raw_sub(self, o: Self) -> Self {
        Pq(self.0 - o.0)
    }
    fn raw_mul(self, o: Self) -> Self {
        Pq(self.0 * o.0)
    }
    fn raw_div(self, o: Self) -> Self {
        Pq(self.0 / o.0)
    }
    fn raw_is_zero(&self) -> bool {
        self.0.is_zero()
    }
    fn raw_is_one(&self) -> bool {
        self.0.is_one()
    }
    fn raw_eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn raw_stab(&self, o: &Self) -> Ordering {
        self.0.stability_cmp(&o.0).unwrap()
    }
    /// Equal for equal values, however represented.
    fn pivot_key(&self) -> u64 {
        let (n, d) = lowest(self.0.numer.0 as i128, self.0.denom.0 as i128);
        mix(n as u64) ^ d as u64
    }
}
impl PartialEq for Pq {
    fn eq(&self, o: &Self) -> bool {
        flip(callback(), self.0 == o.0)
    }
}
impl PartialOrd for Pq {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        rank(callback(), self.0.partial_cmp(&o.0))
    }
}
impl fmt::Debug for Pq {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if callback() != 0 {
            return Err(fmt::Error);
        }
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for Pq {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if callback() != 0 {
            return Err(fmt::Error);
        }
        fmt::Display::fmt(&self.0, f)
    }
}
newtype_field! { [] Pq, Pq(Rational::ZERO), Pq(Rational::ONE), raw_add raw_sub raw_mul raw_div }

// --- what the catalogue needs of a coefficient type -----------------------------------------------

pub trait SF: Field + StabilityCmp + EpsilonEquality + PartialOrd + crate::enc::Enc + 'static {
    /// Are there numerators and denominators at the limits of i64?
    const WIDE: bool = false;
    fn gen(r: &mut Rng) -> Self;
    /// Text of a polynomial, for the types whose polynomials can be printed.
    fn show_poly<'a>(_p: &'a Polynomial<Self>) -> Option<&'a dyn fmt::Display> {
        None
    }
    fn of(n: i64, d: i64) -> Self;
    /// Numerator and denominator (of the representation, not normalised).
    fn plain(&self) -> (i64, i64);
}
fn small(r: &mut Rng) -> i64 {
    match r.below(10) {
        0..=6 => r.range(-3, 3),
        7 | 8 => r.range(-20, 20),
        _ => r.range(-1000, 1000),
    }
}
impl<const P: u64> SF for Gf<P> {
    fn gen(r: &mut Rng) -> Self {
        Gf(if r.chance(7, 10) { r.below(4) % P } else { r.below(P) })
    }
    fn of(n: i64, d: i64) -> Self {
        let f = |x: i64| Gf::<P>(x.rem_euclid(P as i64) as u64);
        if d == 1 || f(d).0 == 0 {
            f(n)
        } else {
            f(n).raw_div(f(d))
        }
    }
    fn plain(&self) -> (i64, i64) {
        (self.0 as i64, 1)
    }
}
fn gen_rat(r: &mut Rng) -> Rational {
    let n = small(r);
    let d = match r.below(8) {
        0..=4 => 1,
        5 | 6 => r.range(1, 6),
        _ => r.range(1, 40),
    };
    Rational::new_i64(n, d)
}
impl SF for Rational {
    const WIDE: bool = true;
    fn gen(r: &mut Rng) -> Self {
        gen_rat(r)
    }
    fn show_poly<'a>(p: &'a Polynomial<Self>) -> Option<&'a dyn fmt::Display> {
        Some(p)
    }
    fn of(n: i64, d: i64) -> Self {
        Rational::new_i64(n, d)
    }
    fn plain(&self) -> (i64, i64) {
        (self.numer.0, self.denom.0)
    }
}
impl SF for Pq {
    const WIDE: bool = true;
    fn gen(r: &mut Rng) -> Self {
        Pq(gen_rat(r))
    }
    fn of(n: i64, d: i64) -> Self {
        Pq(Rational::new_i64(n, d))
    }
    fn plain(&self) -> (i64, i64) {
        (self.0.numer.0, self.0.denom.0)
    }
}
impl SF for f64 {
    fn gen(r: &mut Rng) -> Self {
        match r.below(12) {
            0..=8 => small(r) as f64,
            9 => small(r) as f64 / 8.0,
            10 => small(r) as f64 * 1e6,
            _ => small(r) as f64 / 3.0,
        }
    }
    fn show_poly<'a>(p: &'a Polynomial<Self>) -> Option<&'a dyn fmt::Display> {
        Some(p)
    }
    fn of(n: i64, d: i64) -> Self {
        n as f64 / d as f64
    }
    fn plain(&self) -> (i64, i64) {
        (*self as i64, 1)
    }
}

// --- monomial orders --------------------------------------------------------------------------------

/// A monomial order chosen by the running call: the four provided ones, or a weighted
/// order (nonnegative weights, ties broken lexicographically) of the simulator's own.
pub struct DynOrd;
pub fn with_ord<T>(k: u64, f: impl FnOnce() -> T) -> T {
    struct G(u64);
    impl Drop for G {
        fn drop(&mut self) {
            set_order(self.0);
        }
    }
    let _g = G(set_order(k));
    f()
}
pub fn weight(k: u64, i: usize) -> u64 {
    mix(k ^ ((i as u64) << 32)) % 4
}
impl MonomialOrder for DynOrd {
    fn cmp(a: &MultiDegree, b: &MultiDegree) -> Ordering {
        let lie = callback();
        if lie != 0 {
            return rank(lie | 2, None).unwrap_or(Ordering::Less);
        }
        match order() {
            0 => Lex::cmp(a, b),
            1 => RevLex::cmp(a, b),
            2 => GrLex::cmp(a, b),
            3 => GRevLex::cmp(a, b),
            k => {
                let w = |m: &MultiDegree| m.degs().enumerate().map(|(i, &d)| weight(k, i) * d as u64).sum::<u64>();
                w(a).cmp(&w(b)).then_with(|| {
                    let n = a.len().max(b.len());
                    let at = |m: &MultiDegree, i: usize| m.degs().nth(i).copied().unwrap_or(0);
                    (0..n).map(|i| at(a, i).cmp(&at(b, i))).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal)
                })
            }
        }
    }
}

pub fn int(n: i64) -> Integer {
    Integer::from(n)
}
