//! Groebner basis computations on lists a caller holds, with a fault plan for each attempt.
use crate::fields::{with_ord, DynOrd, Gf, Pq, SF};
use algeo::poly::comp::Computer;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::{GRevLex, GrLex, Lex, RevLex};
use simrt::calls::{call, Plan, Status};

/// Numerator, denominator, exponents of every term.
pub type Plain = Vec<(i64, i64, Vec<u8>)>;
pub const GB_FIELDS: [&str; 4] = ["GF(2)", "GF(7)", "GF(32003)", "probed Rational"];

fn build<F: SF>(p: &Plain) -> Polynomial<F> {
    let mut seen: Vec<MultiDegree> = vec![];
    let mut ts: Vec<Term<F>> = vec![];
    for (n, d, m) in p {
        let c = F::of(*n, *d);
        let m = MultiDegree::from_vec(m.clone());
        if c.plain().0 == 0 || seen.contains(&m) {
            continue;
        }
        seen.push(m.clone());
        ts.push(Term { coef: c, mdeg: m });
    }
    Polynomial { terms: ts }
}
fn plain<F: SF>(p: &Polynomial<F>) -> Plain {
    p.terms.iter().map(|t| (t.coef.plain().0, t.coef.plain().1, t.mdeg.0.clone())).collect()
}
fn attempt<F: SF>(l: &mut Vec<Polynomial<F>>, ord: u64, plan: &Plan) -> (Status, String, u64) {
    let o = call(plan, None, || match ord {
        100 => Computer::<F, Lex>::buchberger_algorithm(l),
        101 => Computer::<F, RevLex>::buchberger_algorithm(l),
        102 => Computer::<F, GrLex>::buchberger_algorithm(l),
        103 => Computer::<F, GRevLex>::buchberger_algorithm(l),
        k => with_ord(k, || Computer::<F, DynOrd>::buchberger_algorithm(l)),
    });
    (o.status, o.msg, o.callbacks)
}

pub enum AnyList {
    A(Vec<Polynomial<Gf<2>>>),
    B(Vec<Polynomial<Gf<7>>>),
    C(Vec<Polynomial<Gf<32003>>>),
    D(Vec<Polynomial<Pq>>),
}
unsafe impl Send for AnyList {}
macro_rules! each {
    ($x:expr, $l:ident => $e:expr) => {
        match $x {
            AnyList::A($l) => $e,
            AnyList::B($l) => $e,
            AnyList::C($l) => $e,
            AnyList::D($l) => $e,
        }
    };
}
impl AnyList {
    pub fn new(field: usize, polys: &[Plain]) -> AnyList {
        // A zero polynomial is not a generator.
        fn go<F: SF>(polys: &[Plain]) -> Vec<Polynomial<F>> {
            polys.iter().map(build).filter(|p: &Polynomial<F>| !p.terms.is_empty()).collect()
        }
        match field % 4 {
            0 => AnyList::A(go(polys)),
            1 => AnyList::B(go(polys)),
            2 => AnyList::C(go(polys)),
            _ => AnyList::D(go(polys)),
        }
    }
    pub fn attempt(&mut self, ord: u64, plan: &Plan) -> (Status, String, u64) {
        each!(self, l => attempt(l, ord, plan))
    }
    pub fn export(&self) -> Vec<Plain> {
        each!(self, l => l.iter().map(plain).collect())
    }
    /// What a caller may do to its list between attempts.
    pub fn edit(&mut self, kind: u64, i: usize, j: usize, p: &Plain) {
        fn go<F: SF>(l: &mut Vec<Polynomial<F>>, kind: u64, i: usize, j: usize, p: &Plain) {
            let n = l.len();
            match kind % 5 {
                _ if n == 0 => {}
                0 => l.swap(i % n, j % n),
                1 => {
                    let q = build(p);
                    if !q.terms.is_empty() {
                        l.push(q)
                    }
                }
                2 => {
                    if n > 1 {
                        l.remove(i % n);
                    }
                }
                3 => {
                    let q = build(p);
                    if !q.terms.is_empty() {
                        l[i % n] = q
                    }
                }
                _ => {
                    let c = l[j % n].clone();
                    l.insert(i % n, c)
                }
            }
        }
        each!(self, l => go(l, kind, i, j, p))
    }
}
