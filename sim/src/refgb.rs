//! Reference: reduced Groebner bases over GF(p), written independently of the library.
use simops::fields::weight;
use simops::gb::Plain;
use std::cmp::Ordering;

type Mono = Vec<u32>;
/// Descending in the ring's order, coefficients nonzero.
pub type Poly = Vec<(Mono, u64)>;

pub struct Ring {
    pub p: u64,
    pub nv: usize,
    pub ord: u64,
    pub budget: u64,
}
pub fn mulm(a: u64, b: u64, p: u64) -> u64 {
    (a as u128 * b as u128 % p as u128) as u64
}
pub fn powm(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, b, p);
        }
        b = mulm(b, b, p);
        e >>= 1;
    }
    r
}
pub fn invm(a: u64, p: u64) -> u64 {
    powm(a, p - 2, p)
}
fn is_prime(n: u64) -> bool {
    let (mut d, mut s) = (n - 1, 0);
    while d % 2 == 0 {
        d /= 2;
        s += 1;
    }
    'w: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = powm(a, d, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 1..s {
            x = mulm(x, x, n);
            if x == n - 1 {
                continue 'w;
            }
        }
        return false;
    }
    true
}
/// Three primes just below 2^61.
pub fn primes() -> [u64; 3] {
    static P: std::sync::OnceLock<[u64; 3]> = std::sync::OnceLock::new();
    *P.get_or_init(|| {
        let mut v = vec![];
        let mut n = (1u64 << 61) - 1;
        while v.len() < 3 {
            if is_prime(n) {
                v.push(n);
            }
            n -= 2;
        }
        [v[0], v[1], v[2]]
    })
}

impl Ring {
    pub fn cmp(&self, a: &[u32], b: &[u32]) -> Ordering {
        let lex = || a.cmp(b);
        let rev = || a.iter().rev().cmp(b.iter().rev());
        let total = || a.iter().sum::<u32>().cmp(&b.iter().sum());
        match self.ord {
            0 | 100 => lex(),
            1 | 101 => rev(),
            2 | 102 => total().then_with(lex),
            3 | 103 => total().then_with(|| rev().reverse()),
            k => {
                let w = |m: &[u32]| m.iter().enumerate().map(|(i, &d)| weight(k, i) * d as u64).sum::<u64>();
                w(a).cmp(&w(b)).then_with(lex)
            }
        }
    }
    /// Reads a polynomial of the library; `None` if a denominator vanishes mod p.
    pub fn import(&self, f: &Plain) -> Option<Poly> {
        let mut v: Poly = vec![];
        for (n, d, m) in f {
            let r = |x: i64| (x as i128).rem_euclid(self.p as i128) as u64;
            if r(*d) == 0 {
                return None;
            }
            let c = mulm(r(*n), invm(r(*d), self.p), self.p);
            let mut e: Mono = m.iter().map(|x| *x as u32).collect();
            if e.len() > self.nv && e[self.nv..].iter().any(|x| *x != 0) {
                return None;
            }
            e.resize(self.nv, 0);
            v.push((e, c));
        }
        v.sort_by(|a, b| self.cmp(&b.0, &a.0));
        let mut out: Poly = vec![];
        for (m, c) in v {
            match out.last_mut() {
                Some(l) if l.0 == m => l.1 = (l.1 + c) % self.p,
                _ => out.push((m, c)),
            }
        }
        out.retain(|t| t.1 != 0);
        Some(out)
    }
    /// f - c * x^m * g
    fn sub(&self, f: &[(Mono, u64)], c: u64, m: &[u32], g: &[(Mono, u64)]) -> Poly {
        let mut out = Vec::with_capacity(f.len() + g.len());
        let nc = self.p - c;
        let (mut i, mut j) = (0, 0);
        let shift = |t: &Mono| -> Mono { t.iter().zip(m).map(|(a, b)| a + b).collect() };
        let mut gm = g.first().map(|t| shift(&t.0));
        while i < f.len() || gm.is_some() {
            let o = match (&gm, f.get(i)) {
                (None, _) => Ordering::Greater,
                (_, None) => Ordering::Less,
                (Some(x), Some(t)) => self.cmp(&t.0, x),
            };
            match o {
                Ordering::Greater => {
                    out.push(f[i].clone());
                    i += 1;
                }
                o => {
                    let mut k = mulm(nc, g[j].1, self.p);
                    if o == Ordering::Equal {
                        k = (k + f[i].1) % self.p;
                        i += 1;
                    }
                    let mm = gm.take().unwrap();
                    if k != 0 {
                        out.push((mm, k));
                    }
                    j += 1;
                    gm = g.get(j).map(|t| shift(&t.0));
                }
            }
        }
        out
    }
    fn monic(&self, f: &mut Poly) {
        if let Some(l) = f.first() {
            let i = invm(l.1, self.p);
            for t in f.iter_mut() {
                t.1 = mulm(t.1, i, self.p);
            }
        }
    }
    fn spend(&mut self, n: u64) -> Option<()> {
        self.budget = self.budget.checked_sub(n)?;
        Some(())
    }
    /// Full remainder of f modulo monic polynomials, skipping `skip`.
    fn rem(&mut self, mut f: Poly, g: &[Poly], skip: usize) -> Option<Poly> {
        let mut out = vec![];
        'o: while !f.is_empty() {
            for (k, h) in g.iter().enumerate() {
                if k != skip && !h.is_empty() && divides(&h[0].0, &f[0].0) {
                    self.spend((f.len() + h.len()) as u64)?;
                    let m: Mono = f[0].0.iter().zip(&h[0].0).map(|(a, b)| a - b).collect();
                    f = self.sub(&f, f[0].1, &m, h);
                    continue 'o;
                }
            }
            out.push(f.remove(0));
            self.spend(1)?;
        }
        Some(out)
    }
    /// The reduced Groebner basis, sorted; `None` when the budget is exhausted.
    pub fn basis(&mut self, gens: &[Poly]) -> Option<Vec<Poly>> {
        let mut g: Vec<Poly> = vec![];
        let mut pairs: Vec<(u32, usize, usize)> = vec![];
        let mut queue: Vec<Poly> = gens.to_vec();
        queue.reverse();
        loop {
            let f = match queue.pop() {
                Some(f) => f,
                None => {
                    let Some(at) = (0..pairs.len()).min_by_key(|i| pairs[*i]) else { break };
                    let (_, i, j) = pairs.swap_remove(at);
                    let l: Mono = g[i][0].0.iter().zip(&g[j][0].0).map(|(a, b)| *a.max(b)).collect();
                    let mi: Mono = l.iter().zip(&g[i][0].0).map(|(a, b)| a - b).collect();
                    let mj: Mono = l.iter().zip(&g[j][0].0).map(|(a, b)| a - b).collect();
                    let a = self.sub(&[], self.p - 1, &mi, &g[i]);
                    self.sub(&a, 1, &mj, &g[j])
                }
            };
            let mut r = self.rem(f, &g, usize::MAX)?;
            if r.is_empty() {
                continue;
            }
            self.monic(&mut r);
            let n = g.len();
            for i in 0..n {
                let coprime = r[0].0.iter().zip(&g[i][0].0).all(|(a, b)| *a == 0 || *b == 0);
                if !coprime {
                    let d = r[0].0.iter().zip(&g[i][0].0).map(|(a, b)| *a.max(b)).sum();
                    pairs.push((d, i, n));
                }
            }
            g.push(r);
        }
        // Minimal, then reduced.
        let mut keep: Vec<Poly> = vec![];
        for i in 0..g.len() {
            let redundant = (0..g.len()).any(|j| j != i && divides(&g[j][0].0, &g[i][0].0) && (g[j][0].0 != g[i][0].0 || j < i));
            if !redundant {
                keep.push(g[i].clone());
            }
        }
        for i in 0..keep.len() {
            let f = keep[i].clone();
            keep[i] = self.rem(f, &keep, i)?;
        }
        keep.sort();
        Some(keep)
    }
}
pub fn divides(a: &[u32], b: &[u32]) -> bool {
    a.iter().zip(b).all(|(x, y)| x <= y)
}
