//! Every public operation of the library, as a call on shared operands.
use crate::enc::{text, Enc};
use crate::fields::{rank, with_ord, DynOrd, SF};
use crate::world::World;
use algeo::core::num::{EpsilonEquality, Field, Integer, One, Rational, StabilityCmp, Zero};
use algeo::linalg::cone::Cone;
use algeo::linalg::mat::Mat;
use algeo::linalg::util::{get_box_iter, get_max_index, mat_iterator, num_to_seq};
use algeo::poly::comp::Computer;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::{grad, GRevLex, GrLex, Lex, MonomialOrder, RevLex};
use simrt::calls::callback;
use std::hash::{Hash, Hasher};

/// Ends the observed part of a call: the result is turned into text outside the simulation.
fn fin<T: Enc>(v: T) -> String {
    simrt::alloc::window(false, 0, 0);
    simrt::calls::suspended(|| simrt::sched::masked(|| text(&v)))
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}
/// A sink that is simulator-owned code.
struct CbSink(String);
impl std::fmt::Write for CbSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if callback() != 0 {
            return Err(std::fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}
fn show(d: &dyn std::fmt::Display) -> String {
    let mut s = CbSink(String::new());
    let _ = std::fmt::write(&mut s, format_args!("{}", d));
    s.0
}
fn debug(d: &dyn std::fmt::Debug, alt: bool) -> String {
    let mut s = CbSink(String::new());
    let _ = if alt { std::fmt::write(&mut s, format_args!("{:#?}", d)) } else { std::fmt::write(&mut s, format_args!("{:?}", d)) };
    s.0
}
/// A caller's iterator: each step is simulator-owned code.
struct CbIter<I>(I);
impl<I: Iterator> Iterator for CbIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let lie = callback();
        match lie >> 1 & 3 {
            _ if lie == 0 => self.0.next(),
            0 => None,
            _ => {
                self.0.next();
                self.0.next()
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let lie = callback() as usize;
        match lie >> 1 & 3 {
            _ if lie == 0 => self.0.size_hint(),
            0 => (0, None),
            1 => (0, Some(0)),
            _ => ((lie >> 4) % 40, Some((lie >> 4) % 40)),
        }
    }
}

macro_rules! ops {
    ($w:ident $a:ident $b:ident $c:ident; $($name:literal => $body:expr;)*) => {
        pub const NAMES: &[&str] = &[$($name),*];
        #[allow(unused_variables, unused_assignments)]
        pub fn run_op<F: SF>($w: &World<F>, k: usize, $a: usize, $b: usize, $c: usize) -> String {
            let mut n = 0usize;
            $(
                if k == n { return { $body }; }
                n += 1;
            )*
            panic!("no such operation")
        }
    };
}
macro_rules! at {
    ($v:expr, $i:expr) => {
        &$v[$i % $v.len()]
    };
}

ops! { w a b c;
    // integers
    "int.add" => fin(*at!(w.ints, a) + *at!(w.ints, b));
    "int.sub" => fin(*at!(w.ints, a) - *at!(w.ints, b));
    "int.mul" => fin(*at!(w.ints, a) * *at!(w.ints, b));
    "int.div" => fin(*at!(w.ints, a) / *at!(w.ints, b));
    "int.rem" => fin(*at!(w.ints, a) % *at!(w.ints, b));
    "int.unary" => { let x = *at!(w.ints, a); fin((-x, x.abs(), x.sgn(), (x.is_pos(), x.is_neg()), (x.is_zero(), x.is_one()))) };
    "int.pow" => fin(at!(w.ints, a).pow(Integer::from((b % 9 * w.scale) as i64)));
    "int.gcd" => fin(Integer::gcd(*at!(w.ints, a), *at!(w.ints, b)));
    "int.gcds" => fin((0..8).map(|i| Integer::gcd(*at!(w.ints, a + i), *at!(w.ints, b + 3 * i))).collect::<Vec<_>>());
    "int.lcm" => fin(Integer::lcm(*at!(w.ints, a), *at!(w.ints, b)));
    "int.show" => fin((show(at!(w.ints, a)), debug(at!(w.ints, b), false)));
    "int.cmp" => fin((at!(w.ints, a).cmp(at!(w.ints, b)), hash(at!(w.ints, a)), Integer::default() == *at!(w.ints, b)));
    // rationals
    "rat.new" => fin(Rational::new(*at!(w.ints, a), *at!(w.ints, b)));
    "rat.new_i64" => fin((Rational::new_i64(a as i64 * 6, b as i64 + 1), Rational::new_int(*at!(w.ints, c)), Rational::from(*at!(w.ints, b))));
    "rat.add" => fin(*at!(w.rats, a) + *at!(w.rats, b));
    "rat.sub" => fin(*at!(w.rats, a) - *at!(w.rats, b));
    "rat.mul" => fin(*at!(w.rats, a) * *at!(w.rats, b));
    "rat.div" => fin(*at!(w.rats, a) / *at!(w.rats, b));
    "rat.unary" => { let x = *at!(w.rats, a); fin((-x, x.sgn(), (x.is_zero(), x.is_one()))) };
    "rat.recip" => fin((at!(w.rats, a).recip(), at!(w.rats, b).inv()));
    "rat.pow" => fin((at!(w.rats, a).pow(Integer::from((b as i64 % 7 - 3) * w.scale as i64)), at!(w.rats, a).powi((c as i32 % 5 - 2) * w.scale as i32), at!(w.rats, a).powi32(2)));
    "rat.assign" => { let mut x = *at!(w.rats, a); x += *at!(w.rats, b); x *= *at!(w.rats, c); x -= *at!(w.rats, a); x /= *at!(w.rats, b); fin(x) };
    "rat.sum" => fin((CbIter(w.rats.iter().skip(a % 8).take(3 * w.scale).copied()).sum::<Rational>(), CbIter(w.rats.iter().skip(b % 8).take(2 * w.scale * w.scale).copied()).product::<Rational>()));
    "rat.cmp" => fin((at!(w.rats, a).cmp(at!(w.rats, b)), at!(w.rats, a).partial_cmp(at!(w.rats, c)), at!(w.rats, a) == at!(w.rats, b)));
    "rat.stab" => fin((at!(w.rats, a).stability_cmp(at!(w.rats, b)), at!(w.rats, a).epsilon_equals(at!(w.rats, b)), hash(at!(w.rats, c))));
    "rat.show" => fin((show(at!(w.rats, a)), debug(at!(w.rats, b), c % 2 == 0)));
    "float.ops" => { let (x, y) = (a as f64 - 3.5, b as f64 * 0.25); fin((x.powi32(c as i32 % 4), x.inv(), x.stability_cmp(&y), x.epsilon_equals(&y), (x.is_zero(), y.is_one()))) };
    "float32.ops" => { let (x, y) = (a as f32 - 3.5, b as f32 * 0.25); fin((x.powi32(c as i32 % 4), x.inv(), x.stability_cmp(&y), x.epsilon_equals(&y), (x.is_zero(), y.is_one()))) };
    "prim.zero_one" => fin(((0u8.is_zero(), 1i128.is_one()), (usize::ZERO, u64::ONE), (i64::ZERO, u8::ONE), (3u16.is_one(), 0i8.is_zero())));
    // scalars of the field
    "scal.field" => { let x = *at!(w.scal, a); let y = *at!(w.scal, b); fin((x + y, x - y, x * y, x.powi32(c as i32 % 5), (x.is_zero(), x.is_one()))) };
    "scal.inv" => fin((at!(w.scal, a).inv(), *at!(w.scal, b) / *at!(w.scal, a)));
    // matrices
    "mat.make" => { let (n, k) = (1 + a % 5 * w.scale, 1 + b % 5 * w.scale); fin((Mat::<F>::identity(n), Mat::<F>::zero(n, k), Mat::<F>::e(c % n, n), Mat::new(1, 1, vec![*at!(w.scal, c)]))) };
    "mat.elementary" => { let n = 2 + a % 4 * w.scale; fin((Mat::<F>::scale_mat(n, b % n, *at!(w.scal, c)), Mat::<F>::permutation(n, a % n, c % n), Mat::<F>::replacement(n, b % n, c % n, *at!(w.scal, a)))) };
    "mat.permutation_from_vec" => { let n = 1 + a % 7 * w.scale; let mut p: Vec<usize> = (0..n).collect(); p.rotate_left(b % n); p.swap(0, c % n); fin(Mat::<F>::permutation_from_vec(p)) };
    "mat.from_rows" => fin(Mat::from_row_vectors(&w.vecs));
    "mat.from_cols" => fin(Mat::from_col_vectors(&w.vecs));
    "mat.from_iter" => fin(Mat::from(CbIter(w.scal.iter().skip(a % 8).copied())));
    "mat.transpose" => fin(at!(w.mats, a).transpose());
    "mat.add" => fin(&w.mats[0] + &w.mats[1]);
    "mat.add_square" => fin(w.mats[3].clone() + &w.mats[4]);
    "mat.add_any" => fin(at!(w.mats, a) + at!(w.mats, b));
    "mat.mul" => fin(&w.mats[a % 2] * &w.mats[2]);
    "mat.mul_square" => fin(&w.mats[3 + a % 2] * w.mats[4 - b % 2].clone());
    "mat.mul_vec" => fin(&w.mats[3 + a % 2] * &w.mats[5 + b % 2]);
    "mat.mul_any" => fin(at!(w.mats, a) * at!(w.mats, b));
    "mat.scale" => { let mut m = at!(w.mats, a).clone(); m.scale(*at!(w.scal, b)); m *= *at!(w.scal, c); fin((m, at!(w.mats, a) * *at!(w.scal, c))) };
    "mat.rows" => { let mut m = at!(w.mats, a).clone(); let n = m.rows(); m.scale_row(b % n, *at!(w.scal, c)); m.permute_rows(b % n, c % n); m.replace_row(c % n, b % n, *at!(w.scal, a)); fin(m) };
    "mat.swap" => { let mut m = at!(w.mats, a).clone(); let (r, k) = (m.rows(), m.cols()); m.swap((b % r, c % k), (c % r, b % k)); m[(b % r, b % k)] = *at!(w.scal, c); *m.get_mut_unchecked(c % r, c % k) = *at!(w.scal, b); fin(m) };
    "mat.iter_mut" => { let mut m = at!(w.mats, a).clone(); let (r, k) = (m.rows(), m.cols()); for x in m.get_row_iter_mut(b % r) { *x += *at!(w.scal, c); } for x in m.get_col_iter_mut(c % k) { *x *= *at!(w.scal, b); } fin(m) };
    "mat.get" => { let m = at!(w.mats, a); let (r, k) = (m.rows(), m.cols()); fin((m[(b % r, c % k)], *m.get_unchecked(c % r, b % k), m.get_row(b % r), m.get_col(c % k), (m.rows(), m.cols()))) };
    "mat.iters" => { let m = at!(w.mats, a); fin((m.get_row_iter(b % m.rows()).collect::<Vec<_>>(), m.get_col_iter(c % m.cols()).collect::<Vec<_>>(), m.index_iter().collect::<Vec<_>>(), m.entries())) };
    "mat.norm" => fin((at!(w.mats, a).frobenius_norm(), w.mats[5].dot(&w.mats[6]), w.mats[0].dot(&w.mats[1])));
    "mat.triangular" => fin((at!(w.mats, a).is_upper_triangular(), at!(w.mats, b).is_lower_triangular()));
    "mat.eq" => fin((w.mats[0] == w.mats[1], w.mats[0].epsilon_equals(&w.mats[1]), at!(w.mats, a) == at!(w.mats, b)));
    "mat.show" => fin((show(at!(w.mats, a)), debug(at!(w.mats, b), c % 2 == 0)));
    // elimination
    "elim.pivot" => { let m = at!(w.mats, a); fin((m.get_stable_column_index_under_row(b % m.cols(), c % m.rows()), m.zero_rows())) };
    "elim.lu" => { let d = at!(w.mats, a).lu(); fin((d.p, d.l, d.u)) };
    "elim.rank" => { let e = at!(w.mats, a).row_echelon(); fin((e.rank(), e.nullity())) };
    "elim.kernel" => { let e = at!(w.mats, a).row_echelon().to_rref(); fin((e.rank(), e.nullity(), e.compute_kernel())) };
    "elim.range" => { let e = at!(w.mats, a).row_echelon().to_rref(); fin(e.compute_range()) };
    "elim.both" => { let e = at!(w.mats, a).row_echelon().to_rref(); let f = at!(w.mats, b).row_echelon().to_rref(); fin((f.compute_kernel(), e.compute_range(), f.compute_range(), e.compute_kernel())) };
    "cone.new" => { let c = Cone::new(w.vecs.iter().take(40).cloned().collect()); drop(c); fin(()) };
    "cone.new2" => { let m = at!(w.mats, a); let v: Vec<Mat<F>> = (0..m.rows().min(5)).map(|r| m.get_row(r)).collect(); let c = Cone::new(v); drop(c); fin(()) };
    // utilities
    "util.box" => fin(get_box_iter(a % 6 * w.scale, b % 6 * w.scale).collect::<Vec<_>>());
    "util.seq" => fin(num_to_seq(a * 131 + b, 2 + c % 7).collect::<Vec<_>>());
    "util.max" => fin(get_max_index(CbIter(w.ints.iter().skip(a % 8)), |x, y| rank(callback(), Some(x.cmp(y)))));
    "util.mats" => { let v: Vec<F> = w.scal[..1 + a % 3].to_vec(); let (n, m) = (1 + b % 2 * w.scale, 1 + c % 3 * w.scale); fin(mat_iterator(n, m, &v).take(12 + b % 9).collect::<Vec<_>>()) };
    // multidegrees and orders
    "mdeg.make" => { let mut t = MultiDegree(vec![a as u8, 0, b as u8, 0]); t.trim_zeros(); fin((MultiDegree::new(), MultiDegree::zero(), MultiDegree::var(a % 9, b as u8), MultiDegree::from_vec(vec![a as u8 % 3, 0, b as u8 % 3, 0, 0, c as u8 % 2]), t, MultiDegree::default())) };
    "mdeg.add" => fin((at!(w.mdegs, a) + at!(w.mdegs, b), at!(w.mdegs, c).clone() + at!(w.mdegs, a)));
    "mdeg.sub" => fin((at!(w.mdegs, a).checked_sub(at!(w.mdegs, b)), at!(w.mdegs, a).checked_sub(at!(w.mdegs, a))));
    "mdeg.addsub" => { let s = at!(w.mdegs, a) + at!(w.mdegs, b); fin((s.checked_sub(at!(w.mdegs, a)), s.is_succ(at!(w.mdegs, b)), at!(w.mdegs, b).is_succ(&s))) };
    "mdeg.get" => { let d = at!(w.mdegs, a); let mut e = d.clone(); for x in e.degs_mut() { *x = x.wrapping_mul(3); } fin((d.len(), d.is_zero(), d.degs().collect::<Vec<_>>(), e, d == at!(w.mdegs, b))) };
    "mdeg.total" => fin((at!(w.mdegs, a).total_deg(), at!(w.mdegs, b).total_deg()));
    "mdeg.show" => fin((show(at!(w.mdegs, a)), debug(at!(w.mdegs, b), false)));
    "ord.lex" => fin((0..6).map(|i| (Lex::cmp(at!(w.mdegs, a + i), at!(w.mdegs, b + 2 * i)), RevLex::cmp(at!(w.mdegs, a + i), at!(w.mdegs, c + 3 * i)))).collect::<Vec<_>>());
    "ord.graded" => fin((GrLex::cmp(at!(w.mdegs, a), at!(w.mdegs, b)), GRevLex::cmp(at!(w.mdegs, a), at!(w.mdegs, b)), grad(at!(w.mdegs, b), at!(w.mdegs, c))));
    // terms
    "term.make" => fin((Term::<F>::zero(), Term::<F>::one(), Term::<F>::var(a % 7, b as u8), Term::new(*at!(w.scal, a), at!(w.mdegs, b).clone()), Term::constant_unchecked(*at!(w.scal, c)), Term::<F>::monic(at!(w.mdegs, c).clone()), (Term::<F>::default(), Term::from(*at!(w.scal, b)))));
    "term.mul" => fin((at!(w.terms, a) * at!(w.terms, b), at!(w.terms, c).clone() * at!(w.terms, a)));
    "term.add" => fin((at!(w.terms, a) + at!(w.terms, b), at!(w.terms, a) - at!(w.terms, c), -at!(w.terms, b)));
    "term.div" => fin((at!(w.terms, a).try_div(at!(w.terms, b)), at!(w.terms, a).divides(at!(w.terms, b)), at!(w.terms, c).is_zero()));
    "term.muldiv" => { let p = at!(w.terms, a) * at!(w.terms, b); fin((p.try_div(at!(w.terms, b)), at!(w.terms, a).divides(&p), p == *at!(w.terms, a))) };
    "term.eval" => fin(at!(w.terms, a).eval(&w.scal[..if c % 3 == 0 { b % 4 } else { 7 }]));
    "term.show" => fin((show(at!(w.terms, a)), debug(at!(w.terms, b), c % 2 == 0)));
    // polynomials
    "poly.make" => fin((Polynomial::<F>::zero(), Polynomial::<F>::one(), Polynomial::<F>::var(a % 7, b as u8), Polynomial::from(*at!(w.scal, c)), Polynomial::from(at!(w.terms, a)), Polynomial::new(w.terms.clone()), (Polynomial::<F>::default(), Polynomial::from(at!(w.terms, b).clone()))));
    "poly.add" => fin(at!(w.polys, a) + at!(w.polys, b));
    "poly.sub" => fin((at!(w.polys, a) - at!(w.polys, b), -at!(w.polys, c), -(at!(w.polys, a).clone())));
    "poly.mul" => fin(at!(w.polys, a) * at!(w.polys, b));
    "poly.square" => { let p = at!(w.polys, a); fin(p.clone() * p) };
    "poly.term" => fin((at!(w.polys, a) + at!(w.terms, b), at!(w.polys, a) * at!(w.terms, b), at!(w.terms, c) - at!(w.polys, a), at!(w.polys, b) - at!(w.terms, c)));
    "poly.scale" => fin((at!(w.polys, a) * *at!(w.scal, b), at!(w.polys, a) / *at!(w.scal, c)));
    "poly.eval" => fin(at!(w.polys, a).eval(&[w.scal[b % 8], w.scal[1], w.scal[2], w.scal[3], w.scal[c % 8], w.scal[5], w.scal[6], w.scal[7], w.scal[0]][..if c % 4 == 0 { b % 4 } else { 9 }]));
    "poly.get" => { let mut p = at!(w.polys, a).clone(); for t in p.terms_mut() { t.coef = t.coef * *at!(w.scal, b); } fin((at!(w.polys, a).is_zero(), at!(w.polys, b).terms().collect::<Vec<_>>(), p)) };
    "poly.show" => match F::show_poly(at!(w.polys, a)) { Some(d) => fin(show(d)), None => fin(debug(at!(w.polys, a), false)) };
    "poly.debug" => fin(debug(at!(w.polys, a), b % 2 == 0));
    // Groebner machinery
    "comp.lead" => with_ord(c as u64 % 6, || fin((Computer::<F, DynOrd>::sort_terms(at!(w.polys, a)), Computer::<F, DynOrd>::leading_term(at!(w.polys, b)), Computer::<F, DynOrd>::leading_coef(at!(w.polys, a)))));
    "comp.divide" => with_ord(c as u64 % 6, || { let (r, q) = Computer::<F, DynOrd>::divide(at!(w.polys, a), &[at!(w.polys, b).clone(), at!(w.polys, b + 1).clone()]); fin((r, q)) });
    "comp.divide_gens" => with_ord(c as u64 % 6, || { let (r, q) = Computer::<F, DynOrd>::divide(at!(w.polys, a), at!(w.gens, b)); fin((r, q)) });
    "comp.lcm" => fin(Computer::<F, Lex>::monic_lcm(at!(w.terms, a), at!(w.terms, b)));
    "comp.reduce" => with_ord(c as u64 % 6, || fin(Computer::<F, DynOrd>::try_reduce(at!(w.polys, a), at!(w.polys, b))));
    "comp.criterion" => with_ord(c as u64 % 6, || fin(Computer::<F, DynOrd>::buchberger_criterion(at!(w.gens, a))));
    "comp.buchberger" => with_ord(c as u64 % 6, || { let mut g = at!(w.gens, a).clone(); Computer::<F, DynOrd>::buchberger_algorithm(&mut g); fin(g) });
    "comp.buchberger_lex" => { let mut g = at!(w.gens, a).clone(); Computer::<F, GrLex>::buchberger_algorithm(&mut g); fin(g) };
}
