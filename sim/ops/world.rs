//! Operands shared by the calls of a run: a pure function of (field, size, seed).
use crate::enc::{text, Enc};
use crate::fields::SF;
use algeo::core::num::{Integer, Rational};
use algeo::linalg::mat::Mat;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use simrt::rng::Rng;

/// Sizes from here on are those of worlds with very large operands.
pub const LARGE: u64 = 100;
pub struct World<F: SF> {
    pub scal: Vec<F>,
    /// 0, 1: r x c; 2: c x r; 3, 4: n x n; 5, 6: n x 1; 7: r x c of low rank; 8, 9: other shapes.
    pub mats: Vec<Mat<F>>,
    /// n x 1 vectors of one length, for stacking.
    pub vecs: Vec<Mat<F>>,
    pub polys: Vec<Polynomial<F>>,
    pub terms: Vec<Term<F>>,
    pub mdegs: Vec<MultiDegree>,
    pub rats: Vec<Rational>,
    pub ints: Vec<Integer>,
    pub gens: Vec<Vec<Polynomial<F>>>,
    pub nvars: usize,
    /// Factor for the sizes that calls choose themselves.
    pub scale: usize,
}

pub fn gen_mat<F: SF>(r: &mut Rng, rows: usize, cols: usize) -> Mat<F> {
    let zeros = r.below(6);
    let v = (0..rows * cols).map(|_| if r.below(10) < zeros { F::of(0, 1) } else { F::gen(r) }).collect();
    Mat::new(rows, cols, v)
}
fn low_rank<F: SF>(r: &mut Rng, rows: usize, cols: usize) -> Mat<F> {
    let base: Vec<Vec<F>> = (0..rows).map(|_| (0..cols).map(|_| F::of(r.range(-2, 2), 1)).collect()).collect();
    let mut v: Vec<F> = vec![];
    for i in 0..rows {
        let src = if i > 0 && r.chance(1, 2) { r.us(i) } else { i };
        let kill = r.chance(1, 6);
        for c in 0..cols {
            v.push(if kill { F::of(0, 1) } else { base[src][c] });
        }
    }
    Mat::new(rows, cols, v)
}
pub fn gen_mdeg(r: &mut Rng, nvars: usize, hi: u64) -> MultiDegree {
    let n = r.us(nvars + 1);
    let big = r.chance(1, 6);
    MultiDegree::from_vec((0..n).map(|_| if big { r.below(200) as u8 } else { r.below(hi) as u8 }).collect())
}
fn small_mdeg(r: &mut Rng, nvars: usize, hi: u64) -> MultiDegree {
    let n = r.us(nvars + 1);
    MultiDegree::from_vec((0..n).map(|_| r.below(hi) as u8).collect())
}
fn nonzero<F: SF>(r: &mut Rng) -> F {
    loop {
        let x = F::gen(r);
        if x.plain().0 != 0 {
            return x;
        }
    }
}
/// A clean polynomial: distinct multidegrees, nonzero coefficients.
pub fn gen_poly<F: SF>(r: &mut Rng, nvars: usize, hi: u64, nterms: usize) -> Polynomial<F> {
    let mut seen: Vec<Vec<u8>> = vec![];
    let mut ts = vec![];
    for _ in 0..nterms {
        let d = small_mdeg(r, nvars, hi);
        if seen.contains(&d.0) {
            continue;
        }
        seen.push(d.0.clone());
        ts.push(Term::new(nonzero(r), d));
    }
    Polynomial::new(ts)
}
fn gen_int(r: &mut Rng) -> Integer {
    Integer::from(match r.below(8) {
        0..=4 => r.range(-30, 30),
        5 => r.range(-5000, 5000),
        6 => r.range(-4_000_000_000, 4_000_000_000),
        _ => *r.pick(&[0, 1, -1, i64::MAX, i64::MIN + 1, 1 << 40, 60, 360]),
    })
}

impl<F: SF> World<F> {
    pub fn new(size: u64, seed: u64) -> World<F> {
        let r = &mut Rng::sub(seed, 0x77 + size);
        let kind = size;
        let size = if size >= LARGE { 1 } else { size };
        let d = |r: &mut Rng| 1 + r.us(2 + 2 * size as usize);
        let (rows, cols, n, m) = (d(r), d(r), d(r), d(r));
        let nvars = 1 + r.us(2 + size as usize);
        // Exponents of two digits in some worlds.
        let hi = if r.chance(1, 5) { 8 + r.below(12) } else { 2 + r.below(2 + size) };
        let nt = 2 + 2 * size as usize;
        let mut w = World::of_size(r, size, [rows, cols, n, m], nvars, hi, nt);
        if kind >= LARGE {
            w.enlarge(r, kind - LARGE);
        }
        w
    }
    fn of_size(r: &mut Rng, size: u64, [rows, cols, n, m]: [usize; 4], nvars: usize, hi: u64, nt: usize) -> World<F> {
        let mats = vec![
            gen_mat(r, rows, cols),
            gen_mat(r, rows, cols),
            gen_mat(r, cols, rows),
            gen_mat(r, n, n),
            gen_mat(r, n, n),
            gen_mat(r, n, 1),
            gen_mat(r, n, 1),
            low_rank(r, rows, cols),
            gen_mat(r, m, cols),
            low_rank(r, m, n),
        ];
        let k = 1 + r.us(3 + size as usize);
        let vecs = (0..k).map(|_| gen_mat(r, n.min(4), 1)).collect();
        let polys = (0..5)
            .map(|_| {
                let t = r.us(nt + 1);
                gen_poly(r, nvars, hi, t)
            })
            .collect();
        let terms = (0..6).map(|_| Term::new(F::gen(r), gen_mdeg(r, nvars, hi))).collect();
        let mdegs = (0..8)
            .map(|i| match i {
                0..=4 => gen_mdeg(r, nvars, hi),
                // With zeros inside, and longer than anything else here.
                _ => {
                    let n = nvars + 1 + r.us(9);
                    MultiDegree::from_vec((0..n).map(|_| if r.chance(1, 3) { 0 } else { r.below(hi) as u8 }).collect())
                }
            })
            .collect();
        let rats = (0..8)
            .map(|_| {
                let (a, b) = (gen_int(r).0, gen_int(r).0);
                Rational::new_i64(a, if b == 0 { 1 } else { b })
            })
            .collect();
        let ints = (0..8).map(|_| gen_int(r)).collect();
        let mut gens: Vec<Vec<Polynomial<F>>> = (0..2)
            .map(|_| {
                let g = 2 + r.us(2);
                (0..g)
                    .map(|_| loop {
                        let t = 1 + r.us(3);
                        let p = gen_poly(r, nvars.min(3), 3, t);
                        if !p.terms.is_empty() {
                            break p;
                        }
                    })
                    .collect()
            })
            .collect();
        // Differences of monomials: coefficients stay 1 and -1, and bases grow.
        let (nv, e) = (2 + r.us(3), 3 + r.below(2));
        gens.push(
            (0..3)
                .map(|_| loop {
                    let (a, b) = (small_mdeg(r, nv, e), small_mdeg(r, nv, e));
                    if a != b {
                        break Polynomial::new(vec![Term::new(F::of(1, 1), a), Term::new(F::of(-1, 1), b)]);
                    }
                })
                .collect(),
        );
        let scal = (0..8).map(|_| F::gen(r)).collect();
        // A list at the edge of what can be asked for.
        let zero = Polynomial::new(vec![]);
        let one = gens[r.us(2)].clone();
        gens.push(match r.below(7) {
            0 => vec![],
            1 => vec![zero],
            2 => {
                let mut g = one;
                let at = r.us(g.len() + 1);
                g.insert(at, zero);
                g
            }
            3 => one.into_iter().take(1).collect(),
            4 => {
                let mut g = one;
                g.push(g[0].clone());
                g
            }
            // The whole ring.
            5 => {
                let mut g = one;
                g.push(Polynomial::new(vec![Term::new(nonzero(r), MultiDegree::new())]));
                g
            }
            // A basis already: one generator for each of some variables.
            _ => (0..1 + r.us(3)).map(|i| Polynomial::new(vec![Term::new(nonzero(r), MultiDegree::var(i, 1 + r.below(3) as u8))])).collect(),
        });
        World {
            scal,
            mats,
            vecs,
            polys,
            terms,
            mdegs,
            rats,
            ints,
            gens,
            nvars,
            scale: 1,
        }
    }
    /// Replaces the operands of some kinds by very large ones.
    fn enlarge(&mut self, r: &mut Rng, kind: u64) {
        self.scale = 40;
        let (rows, cols, n) = match kind % 4 {
            0 => (2 + r.us(2), 200 + r.us(700), 20 + r.us(20)),
            1 => (150 + r.us(150), 1 + r.us(3), 20 + r.us(20)),
            2 => (25 + r.us(20), 25 + r.us(20), 80 + r.us(50)),
            _ => (1000 + r.us(2000), 1, 10),
        };
        let (rows, cols) = if kind % 8 >= 4 { (cols, rows) } else { (rows, cols) };
        self.mats = vec![
            gen_mat(r, rows, cols),
            gen_mat(r, rows, cols),
            gen_mat(r, cols, rows),
            gen_mat(r, n, n),
            gen_mat(r, n, n),
            gen_mat(r, n, 1),
            gen_mat(r, n, 1),
            low_rank(r, rows, cols),
        ];
        let k = 300 + r.us(500);
        self.vecs = (0..k).map(|_| gen_mat(r, 3, 1)).collect();
        let nv = 2 + r.us(3);
        self.polys = (0..5)
            .map(|i| match i {
                // Many steps to divide by a binomial.
                0 => gen_poly(r, nv, 100, 3),
                1 => Polynomial::new(vec![Term::new(nonzero(r), MultiDegree::var(r.us(nv), 120)), Term::new(nonzero(r), MultiDegree::new())]),
                2 => Polynomial::new(vec![Term::new(F::of(1, 1), MultiDegree::var(r.us(nv), 1)), Term::new(F::of(-1, 1), MultiDegree::new())]),
                _ => {
                    let t = 300 + r.us(900);
                    gen_poly(r, nv.max(3), 12, t)
                }
            })
            .collect();
        let long = |r: &mut Rng| {
            let n = 2000 + r.us(3000);
            // Half of them of a total degree that can be counted.
            let sparse = if r.chance(1, 2) { 60 } else { 2 };
            MultiDegree::from_vec((0..n).map(|_| if r.chance(1, sparse) { r.below(4) as u8 } else { 0 }).collect())
        };
        self.mdegs = (0..8).map(|_| long(r)).collect();
        self.terms = (0..6).map(|i| if i < 3 { Term::new(F::gen(r), long(r)) } else { Term::new(F::gen(r), gen_mdeg(r, 5, 9)) }).collect();
        self.ints = (0..3000).map(|_| Integer::from(r.range(-3000, 3000))).collect();
        self.rats = (0..3000).map(|_| Rational::new_i64(r.range(-1, 1), 1)).collect();
        self.scal = (0..3000).map(|_| F::gen(r)).collect();
        // A single large power and what divides it step by step; chains of binomials.
        self.gens = vec![
            vec![self.polys[1].clone(), self.polys[2].clone()],
            (0..nv).map(|i| Polynomial::new(vec![Term::new(F::of(1, 1), MultiDegree::var(i, 2)), Term::new(F::of(-1, 1), MultiDegree::var((i + 1) % nv, 1))])).collect(),
            (0..20 + r.us(100)).map(|i| Polynomial::new(vec![Term::new(F::of(1, 1), MultiDegree::from_vec(vec![120 - i as u8, 1 + r.below(1 + i as u64) as u8, r.below(3) as u8]))])).collect(),
            // x^n and xy - z: the basis gains x^(n-k)z^k one at a time.
            vec![Polynomial::new(vec![Term::new(F::of(1, 1), MultiDegree::var(0, 15 + r.below(25) as u8))]), Polynomial::new(vec![Term::new(F::of(1, 1), MultiDegree::from_vec(vec![1, 1])), Term::new(F::of(-1, 1), MultiDegree::var(2, 1))])],
            (0..12).map(|i| Polynomial::new(vec![Term::new(F::of(1, 1), MultiDegree::var(i, 1)), Term::new(F::of(-1, 1), MultiDegree::var(i + 1, 1))])).collect(),
        ];
    }
    /// Every operand, exactly.
    pub fn snapshot(&self) -> String {
        let mut s = String::new();
        self.scal.enc(&mut s);
        self.mats.enc(&mut s);
        self.vecs.enc(&mut s);
        self.polys.enc(&mut s);
        self.terms.enc(&mut s);
        self.mdegs.enc(&mut s);
        self.rats.enc(&mut s);
        self.ints.enc(&mut s);
        self.gens.enc(&mut s);
        s
    }
    pub fn describe(&self) -> String {
        text(&(self.mats.iter().map(|m| m.rows() * 100 + m.cols()).collect::<Vec<_>>(), self.nvars))
    }
}
