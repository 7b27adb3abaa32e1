//! Elimination on explicit matrices under seeded pivot preferences.
use crate::fields::{Gf, Pq, SF};
use algeo::core::num::Rational;
use algeo::linalg::mat::Mat;
use simrt::calls::{call, set_pivots, Plan, Status};
use std::fmt::Write;

pub const ELIM_FIELDS: [&str; 5] = ["GF(2)", "GF(7)", "GF(32003)", "probed Rational", "Rational"];
#[derive(Clone, Debug)]
pub struct Grid {
    pub rows: usize,
    pub cols: usize,
    /// Numerators and denominators.
    pub e: Vec<(i64, i64)>,
}
#[derive(Clone, Debug)]
pub struct Run {
    pub mat: usize,
    pub pivots: Option<(u64, u64)>,
    pub panic_at: u64,
    pub order: u64,
}
pub struct Out {
    pub status: Status,
    pub msg: String,
    /// P;L;U | rank nullity rank nullity | kernel | range
    pub text: String,
    /// What does not compare equal to this thread's first completed run on the same matrix.
    pub differs: Option<String>,
}
fn grid<F: SF>(m: &Mat<F>, s: &mut String) {
    let _ = write!(s, "{} {}:", m.rows(), m.cols());
    for x in m.entries() {
        let (n, d) = x.plain();
        let _ = write!(s, "{},{} ", n, d);
    }
    s.push(';');
}
struct Res<F: SF> {
    lu: (Mat<F>, Mat<F>, Mat<F>),
    dims: [usize; 4],
    kernel: Vec<Mat<F>>,
    range: Vec<Mat<F>>,
}
fn eliminate<F: SF>(m: &Mat<F>, order: u64) -> Res<F> {
    let mut lu = None;
    if order & 1 == 0 {
        lu = Some(m.lu());
    }
    let e = m.row_echelon();
    let d = (e.rank(), e.nullity());
    let r = e.to_rref();
    let (kernel, range);
    if order & 2 == 0 {
        kernel = r.compute_kernel();
        range = r.compute_range();
    } else {
        range = r.compute_range();
        kernel = r.compute_kernel();
    }
    let dims = [d.0, d.1, r.rank(), r.nullity()];
    let d = lu.unwrap_or_else(|| m.lu());
    Res { lu: (d.p, d.l, d.u), dims, kernel, range }
}
fn go<F: SF>(mats: &[Mat<F>], runs: &[Run], emit: &mut dyn FnMut(usize, Out)) {
    let mut first: Vec<Option<Res<F>>> = mats.iter().map(|_| None).collect();
    for (k, r) in runs.iter().enumerate() {
        let m = &mats[r.mat];
        set_pivots(r.pivots);
        let o = call(&Plan { panic_at: r.panic_at, ..Plan::default() }, None, || eliminate(m, r.order));
        set_pivots(None);
        let mut out = Out { status: o.status, msg: o.msg, text: String::new(), differs: None };
        if let Some(v) = o.value {
            let s = &mut out.text;
            grid(&v.lu.0, s);
            grid(&v.lu.1, s);
            grid(&v.lu.2, s);
            let _ = write!(s, "|{} {} {} {}|", v.dims[0], v.dims[1], v.dims[2], v.dims[3]);
            v.kernel.iter().for_each(|x| grid(x, s));
            s.push('|');
            v.range.iter().for_each(|x| grid(x, s));
            match &first[r.mat] {
                None => first[r.mat] = Some(v),
                Some(f) => {
                    for (name, same) in [("rank or nullity", f.dims == v.dims), ("kernel basis", f.kernel == v.kernel), ("range basis", f.range == v.range)] {
                        if !same && out.differs.is_none() {
                            out.differs = Some(name.into());
                        }
                    }
                }
            }
        }
        emit(k, out);
    }
}
pub enum AnyMats {
    A(Vec<Mat<Gf<2>>>),
    B(Vec<Mat<Gf<7>>>),
    C(Vec<Mat<Gf<32003>>>),
    D(Vec<Mat<Pq>>),
    E(Vec<Mat<Rational>>),
}
unsafe impl Send for AnyMats {}
unsafe impl Sync for AnyMats {}
impl AnyMats {
    pub fn new(field: usize, g: &[Grid]) -> AnyMats {
        fn mk<F: SF>(g: &[Grid]) -> Vec<Mat<F>> {
            g.iter().map(|g| Mat::new(g.rows, g.cols, g.e.iter().map(|(n, d)| F::of(*n, *d)).collect())).collect()
        }
        match field % 5 {
            0 => AnyMats::A(mk(g)),
            1 => AnyMats::B(mk(g)),
            2 => AnyMats::C(mk(g)),
            3 => AnyMats::D(mk(g)),
            _ => AnyMats::E(mk(g)),
        }
    }
    pub fn runs(&self, runs: &[Run], emit: &mut dyn FnMut(usize, Out)) {
        match self {
            AnyMats::A(m) => go(m, runs, emit),
            AnyMats::B(m) => go(m, runs, emit),
            AnyMats::C(m) => go(m, runs, emit),
            AnyMats::D(m) => go(m, runs, emit),
            AnyMats::E(m) => go(m, runs, emit),
        }
    }
}
