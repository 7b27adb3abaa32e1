//! A client that shares every kind of library value with other threads and sends it to them.
//! It compiles if and only if the library's types allow that.
use algeo::core::num::{Integer, Rational};
use algeo::linalg::algorithm::{LUDecomposition, RowEquivalentForm};
use algeo::linalg::cone::{Cone, Face};
use algeo::linalg::mat::Mat;
use algeo::linalg::util::{get_box_iter, mat_iterator, num_to_seq, MatIterator};
use algeo::poly::comp::Computer;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::{GRevLex, GrLex, Lex, RevLex};

fn both<T: Send + Sync>() {}
fn value<T: Send + Sync>(_: T) {}

pub fn numbers() {
    both::<Integer>();
    both::<Rational>();
}
pub fn matrices() {
    both::<Mat<f64>>();
    both::<Mat<Rational>>();
    both::<LUDecomposition<f64>>();
    both::<LUDecomposition<Rational>>();
    both::<RowEquivalentForm<'static, f64, true, true>>();
    both::<RowEquivalentForm<'static, Rational, true, false>>();
    both::<Cone<f64>>();
    both::<Cone<Rational>>();
    both::<Face<f64>>();
}
pub fn polynomials() {
    both::<MultiDegree>();
    both::<Term<f64>>();
    both::<Term<Rational>>();
    both::<Polynomial<f64>>();
    both::<Polynomial<Rational>>();
    both::<Computer<Rational, Lex>>();
    both::<Lex>();
    both::<RevLex>();
    both::<GrLex>();
    both::<GRevLex>();
}
pub fn enumerations(m: &mut Mat<Rational>, p: &mut Polynomial<Rational>) {
    both::<MatIterator<'static, Rational>>();
    value(mat_iterator(1, 1, m.entries()));
    value(get_box_iter(1, 1));
    value(num_to_seq(1, 2));
    value(m.index_iter());
    value(m.get_row_iter(0));
    value(m.get_col_iter(0));
    value(m.get_row_iter_mut(0));
    value(m.get_col_iter_mut(0));
    value(p.terms());
    value(p.terms_mut());
    value(p.terms[0].mdeg.degs());
}
