//! Exact, order-preserving text of results: two results are equal iff their texts are.
use crate::fields::{Gf, Pq};
use algeo::core::num::{Field, Integer, Rational};
use algeo::linalg::mat::Mat;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use std::cmp::Ordering;
use std::fmt::Write;

pub trait Enc {
    fn enc(&self, s: &mut String);
}
macro_rules! disp {
    ($($t:ty)*) => { $( impl Enc for $t { fn enc(&self, s: &mut String) { let _ = write!(s, "{}", self); } } )* };
}
disp! { usize u8 i64 u64 bool }
impl Enc for str {
    fn enc(&self, s: &mut String) {
        let _ = write!(s, "{:?}", self);
    }
}
impl Enc for String {
    fn enc(&self, s: &mut String) {
        self.as_str().enc(s)
    }
}
impl Enc for () {
    fn enc(&self, s: &mut String) {
        s.push_str("()");
    }
}
impl Enc for f64 {
    fn enc(&self, s: &mut String) {
        if self.fract() == 0.0 && self.abs() < 1e15 && (*self != 0.0 || self.is_sign_positive()) {
            let _ = write!(s, "{}", *self as i64);
        } else {
            let _ = write!(s, "{:e}#{:x}", self, self.to_bits());
        }
    }
}
impl Enc for f32 {
    fn enc(&self, s: &mut String) {
        let _ = write!(s, "{:e}#{:x}", self, self.to_bits());
    }
}
impl<const P: u64> Enc for Gf<P> {
    fn enc(&self, s: &mut String) {
        let _ = write!(s, "{}", self.0);
    }
}
impl Enc for Integer {
    fn enc(&self, s: &mut String) {
        let _ = write!(s, "{}", self.0);
    }
}
impl Enc for Rational {
    fn enc(&self, s: &mut String) {
        let _ = write!(s, "{}/{}", self.numer.0, self.denom.0);
    }
}
impl Enc for Pq {
    fn enc(&self, s: &mut String) {
        self.0.enc(s)
    }
}
impl Enc for Ordering {
    fn enc(&self, s: &mut String) {
        s.push(match self {
            Ordering::Less => '<',
            Ordering::Equal => '=',
            Ordering::Greater => '>',
        });
    }
}
impl<T: Enc + ?Sized> Enc for &T {
    fn enc(&self, s: &mut String) {
        (**self).enc(s)
    }
}
impl<T: Enc + ?Sized> Enc for &mut T {
    fn enc(&self, s: &mut String) {
        (**self).enc(s)
    }
}
impl<T: Enc> Enc for Option<T> {
    fn enc(&self, s: &mut String) {
        match self {
            None => s.push('-'),
            Some(x) => x.enc(s),
        }
    }
}
impl<T: Enc> Enc for [T] {
    fn enc(&self, s: &mut String) {
        s.push('[');
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                s.push(' ');
            }
            x.enc(s);
        }
        s.push(']');
    }
}
impl<T: Enc> Enc for Vec<T> {
    fn enc(&self, s: &mut String) {
        self.as_slice().enc(s)
    }
}
macro_rules! tup {
    ($($n:ident)*) => {
        impl<$($n: Enc),*> Enc for ($($n,)*) {
            #[allow(non_snake_case)]
            fn enc(&self, s: &mut String) {
                let ($($n,)*) = self;
                s.push('(');
                $( $n.enc(s); s.push(';'); )*
                s.push(')');
            }
        }
    };
}
tup! { A B }
tup! { A B C }
tup! { A B C D }
tup! { A B C D E }
tup! { A B C D E G }
tup! { A B C D E G H }
tup! { A B C D E G H I }
impl<F: Field + Enc> Enc for Mat<F> {
    fn enc(&self, s: &mut String) {
        let _ = write!(s, "{}x{}", self.rows(), self.cols());
        self.entries().enc(s);
    }
}
impl Enc for MultiDegree {
    fn enc(&self, s: &mut String) {
        self.0.enc(s)
    }
}
impl<F: Field + Enc> Enc for Term<F> {
    fn enc(&self, s: &mut String) {
        self.coef.enc(s);
        s.push('*');
        self.mdeg.enc(s);
    }
}
impl<F: Field + Enc> Enc for Polynomial<F> {
    fn enc(&self, s: &mut String) {
        self.terms.enc(s)
    }
}
pub fn text<T: Enc + ?Sized>(v: &T) -> String {
    let mut s = String::new();
    v.enc(&mut s);
    s
}
