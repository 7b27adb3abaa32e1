//! The library's lazy enumerations behind one stepping interface.
use crate::enc::{text, Enc};
use crate::fields::{Pq, SF};
use crate::{Gf7, GfBig};
use crate::world::{gen_mat, gen_poly, World};
use crate::AnyWorld;
use algeo::linalg::mat::Mat;
use algeo::linalg::util::{get_box_iter, mat_iterator, num_to_seq};
use algeo::poly::elts::Polynomial;
use algeo::poly::mdeg::MultiDegree;
use simrt::calls::suspended;
use simrt::rng::Rng;
use simrt::sched::masked;
use std::sync::Arc;

pub const KINDS: [&str; 12] = [
    "mat_iterator", "get_box_iter", "num_to_seq", "index_iter", "get_row_iter", "get_col_iter", "degs", "terms", "degs_mut", "terms_mut", "get_row_iter_mut", "get_col_iter_mut",
];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Spec {
    pub kind: usize,
    pub a: usize,
    pub b: usize,
    pub c: usize,
}
pub trait Stepper {
    fn next(&mut self) -> Option<String>;
    fn nth(&mut self, k: usize) -> Option<String>;
    fn take(&mut self, k: usize) -> Vec<String>;
    fn every(&mut self, by: usize, m: usize) -> Vec<String>;
    fn hint(&self) -> (usize, Option<usize>);
    fn rest(self: Box<Self>, how: usize) -> Rest;
}
pub enum Rest {
    Items(Vec<String>),
    Count(usize),
    Last(Option<String>),
}
struct Over<I>(I);
fn t<T: Enc>(x: &T) -> String {
    masked(|| suspended(|| text(x)))
}
impl<I: Iterator> Stepper for Over<I>
where
    I::Item: Enc,
{
    fn next(&mut self) -> Option<String> {
        let x = self.0.next();
        x.map(|x| t(&x))
    }
    fn nth(&mut self, k: usize) -> Option<String> {
        self.0.nth(k).map(|x| t(&x))
    }
    fn take(&mut self, k: usize) -> Vec<String> {
        let v: Vec<I::Item> = self.0.by_ref().take(k).collect();
        v.iter().map(t).collect()
    }
    fn every(&mut self, by: usize, m: usize) -> Vec<String> {
        let v: Vec<I::Item> = self.0.by_ref().step_by(by).take(m).collect();
        v.iter().map(t).collect()
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn rest(self: Box<Self>, how: usize) -> Rest {
        match how % 6 {
            0 => Rest::Items(self.0.collect::<Vec<_>>().iter().map(t).collect()),
            1 => {
                let mut v = vec![];
                self.0.for_each(|x| v.push(t(&x)));
                Rest::Items(v)
            }
            2 => Rest::Count(self.0.count()),
            3 => Rest::Items(self.0.fold(vec![], |mut v, x| {
                v.push(t(&x));
                v
            })),
            4 => {
                // Through the size hint of another adapter.
                let v: Vec<_> = self.0.zip(0..).collect();
                Rest::Items(v.iter().map(|(x, _)| t(x)).collect())
            }
            _ => Rest::Last(self.0.last().map(|x| t(&x))),
        }
    }
}
/// An enumeration and, declared after it so that it is dropped later, what it borrows.
pub struct Live {
    pub it: Option<Box<dyn Stepper>>,
    keep: Box<dyn std::any::Any>,
}
impl Live {
    pub fn drop_it(&mut self) {
        self.it = None;
        let _ = &self.keep;
    }
}
fn boxed<I: Iterator + 'static>(it: I, keep: Box<dyn std::any::Any>) -> Live
where
    I::Item: Enc,
{
    Live { it: Some(Box::new(Over(it))), keep }
}
unsafe fn ext<T: ?Sized>(x: &T) -> &'static T {
    &*(x as *const T)
}
unsafe fn ext_mut<T: ?Sized>(x: &mut T) -> &'static mut T {
    &mut *(x as *mut T)
}
fn values<F: SF>(n: usize) -> Vec<F> {
    (0..n).map(|i| F::of(i as i64, 1)).collect()
}
/// Things larger than any operand of a world, for half of the specifications.
fn big(s: &Spec) -> Option<Rng> {
    if s.c >= 6 {
        Some(Rng::sub((s.a * 144 + s.b * 12 + s.c) as u64, 0xb16))
    } else {
        None
    }
}
fn matrix<F: SF>(w: &World<F>, s: &Spec) -> Mat<F> {
    match big(s) {
        Some(mut r) => {
            let (n, m) = (1 + r.us(24), 1 + r.us(24));
            gen_mat(&mut r, n, m)
        }
        None => w.mats[s.a % w.mats.len()].clone(),
    }
}
fn degrees<F: SF>(w: &World<F>, s: &Spec) -> MultiDegree {
    match big(s) {
        Some(mut r) => MultiDegree::from_vec((0..10 + r.us(60)).map(|_| r.below(5) as u8).collect()),
        None => w.mdegs[s.a % w.mdegs.len()].clone(),
    }
}
fn polynomial<F: SF>(w: &World<F>, s: &Spec) -> Polynomial<F> {
    match big(s) {
        Some(mut r) => gen_poly(&mut r, 4, 6, 30),
        None => w.polys[s.a % w.polys.len()].clone(),
    }
}
fn bounds(s: &Spec) -> (usize, usize) {
    match big(s) {
        Some(_) => (s.a * 3 + s.c - 6, s.b * 2),
        None => (s.a % 6, s.b % 6),
    }
}
fn number(s: &Spec) -> (usize, usize) {
    match big(s) {
        Some(_) => ((usize::MAX - s.c * 7919) >> (s.a * 5 % 60), [2, 3, 7, 8, 10, 13, 16, 60, 100, 256, 1000, 65536][s.b % 12]),
        None => (s.a * 977 + s.c, 2 + s.b % 9),
    }
}
fn dims(s: &Spec) -> (usize, usize, usize) {
    if big(s).is_some() && s.b == 11 {
        // More than can be counted.
        return [(2, 8, 8), (3, 7, 7), (5, 6, 5), (2, 100, 1)][s.a % 4];
    }
    if big(s).is_some() {
        return *[(2, 3, 3), (3, 2, 3), (4, 2, 2), (5, 1, 3), (7, 1, 2), (2, 1, 8), (2, 8, 1), (9, 2, 1), (3, 5, 1), (2, 2, 4), (13, 1, 2), (1, 9, 9)].get(s.a % 12).unwrap();
    }
    // At most 81 matrices.
    let k = 1 + s.a % 3;
    let (n, m) = match k {
        1 => (1 + s.b % 3, 1 + s.c % 3),
        2 => *[(1, 1), (1, 2), (2, 1), (2, 2), (1, 5), (3, 2), (2, 3)].get(s.b % 7).unwrap(),
        _ => *[(1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (4, 1), (1, 3)].get(s.b % 7).unwrap(),
    };
    (k, n, m)
}
fn make<F: SF>(w: &Arc<World<F>>, s: &Spec) -> Live {
    let keep = w.clone();
    let w: &'static World<F> = unsafe { ext(&**w) };
    let row = |m: &Mat<F>| s.b % m.rows();
    let col = |m: &Mat<F>| s.b % m.cols();
    // Of things shared with every other enumeration and call, or of things of its own.
    if big(s).is_none() {
        let m = &w.mats[s.a % w.mats.len()];
        match s.kind % KINDS.len() {
            3 => return boxed(m.index_iter(), Box::new(keep)),
            4 => return boxed(m.get_row_iter(row(m)), Box::new(keep)),
            5 => return boxed(m.get_col_iter(col(m)), Box::new(keep)),
            6 => return boxed(w.mdegs[s.a % w.mdegs.len()].degs(), Box::new(keep)),
            7 => return boxed(w.polys[s.a % w.polys.len()].terms(), Box::new(keep)),
            _ => {}
        }
    }
    match s.kind % KINDS.len() {
        0 => {
            let (k, n, m) = dims(s);
            let v = Box::new(values::<F>(k));
            let r: &'static [F] = unsafe { ext(v.as_slice()) };
            boxed(mat_iterator(n, m, r), v)
        }
        1 => {
            let (a, b) = bounds(s);
            boxed(get_box_iter(a, b), Box::new(()))
        }
        2 => {
            let (n, b) = number(s);
            boxed(num_to_seq(n, b), Box::new(()))
        }
        k @ (6 | 8) => {
            let mut d = Box::new(degrees(w, s));
            let r = unsafe { ext_mut(&mut *d) };
            if k == 6 {
                boxed(r.degs(), d)
            } else {
                boxed(r.degs_mut(), d)
            }
        }
        k @ (7 | 9) => {
            let mut d = Box::new(polynomial(w, s));
            let r = unsafe { ext_mut(&mut *d) };
            if k == 7 {
                boxed(r.terms(), d)
            } else {
                boxed(r.terms_mut(), d)
            }
        }
        k => {
            let mut d = Box::new(matrix(w, s));
            let r: &'static mut Mat<F> = unsafe { ext_mut(&mut *d) };
            match k {
                3 => boxed(r.index_iter(), d),
                4 => boxed(r.get_row_iter(row(r)), d),
                5 => boxed(r.get_col_iter(col(r)), d),
                10 => boxed(r.get_row_iter_mut(row(r)), d),
                _ => boxed(r.get_col_iter_mut(col(r)), d),
            }
        }
    }
}
/// Whether the enumeration is too long to be followed to its end.
pub fn endless(s: &Spec) -> bool {
    let (k, n, m) = dims(s);
    s.kind % KINDS.len() == 0 && k.checked_pow((n * m) as u32).is_none()
}
/// Of an endless one only this much is looked at.
pub const PART: usize = 600;
/// For an endless one: whether this can be one of its items.
fn plausible_in<F: SF>(s: &Spec, item: &str) -> bool {
    let (k, n, m) = dims(s);
    let v: Vec<String> = values::<F>(k).iter().map(text).collect();
    let inner = item.strip_prefix(&format!("{}x{}[", n, m)).and_then(|x| x.strip_suffix(']'));
    inner.map_or(false, |x| x.split(' ').count() == n * m && x.split(' ').all(|e| v.iter().any(|y| y == e)))
}
pub fn plausible(w: &AnyWorld, s: &Spec, item: &str) -> bool {
    match w {
        AnyWorld::A(_) => plausible_in::<Gf7>(s, item),
        AnyWorld::B(_) => plausible_in::<GfBig>(s, item),
        AnyWorld::C(_) => plausible_in::<algeo::core::num::Rational>(s, item),
        AnyWorld::D(_) => plausible_in::<f64>(s, item),
        AnyWorld::E(_) => plausible_in::<Pq>(s, item),
    }
}
/// What it must deliver; for `mat_iterator` in an order of its choice (`false`).
fn expect<F: SF>(w: &World<F>, s: &Spec) -> (Vec<String>, bool) {
    let m = matrix(w, s);
    let pairs = |r: usize, c: usize| (0..r * c).map(|i| text(&(i / c, i % c))).collect();
    let v = match s.kind % KINDS.len() {
        0 => {
            let (k, n, m) = dims(s);
            let v = values::<F>(k);
            let total = k.pow((n * m) as u32);
            let all = (0..total)
                .map(|mut x| {
                    let e = (0..n * m)
                        .map(|_| {
                            let d = x % k;
                            x /= k;
                            v[d]
                        })
                        .collect();
                    text(&Mat::new(n, m, e))
                })
                .collect();
            return (all, false);
        }
        1 => {
            let (a, b) = bounds(s);
            pairs(a, b)
        }
        2 => {
            let (mut n, b) = number(s);
            let mut v = vec![];
            while n > 0 {
                v.push(text(&(n % b)));
                n /= b;
            }
            v
        }
        3 => pairs(m.rows(), m.cols()),
        4 | 10 => (0..m.cols()).map(|c| text(&m.entries()[s.b % m.rows() * m.cols() + c])).collect(),
        5 | 11 => (0..m.rows()).map(|r| text(&m.entries()[r * m.cols() + s.b % m.cols()])).collect(),
        6 | 8 => degrees(w, s).0.iter().map(text).collect(),
        _ => polynomial(w, s).terms.iter().map(text).collect(),
    };
    (v, true)
}
pub fn start(w: &AnyWorld, s: &Spec) -> Live {
    match w {
        AnyWorld::A(w) => make(w, s),
        AnyWorld::B(w) => make(w, s),
        AnyWorld::C(w) => make(w, s),
        AnyWorld::D(w) => make(w, s),
        AnyWorld::E(w) => make(w, s),
    }
}
pub fn expected(w: &AnyWorld, s: &Spec) -> (Vec<String>, bool) {
    match w {
        AnyWorld::A(w) => expect(w, s),
        AnyWorld::B(w) => expect(w, s),
        AnyWorld::C(w) => expect(w, s),
        AnyWorld::D(w) => expect(w, s),
        AnyWorld::E(w) => expect(w, s),
    }
}
