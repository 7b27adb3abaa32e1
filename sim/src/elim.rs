//! C14: elimination under seeded pivot preferences, interruptions and schedules, checked against
//! a reference elimination in exact arithmetic.
use crate::case::Case;
use crate::ctx::{bad_end, clip, Ctx, Verdict};
use crate::engine::{config, crash_point, finish_log, read_log, schedule};
use simops::elim::{AnyMats, Grid, Run};
use simops::fields::lowest;
use simrt::calls::Status;
use simrt::rng::{hash128, Rng};
use simrt::sched;
use simrt::shm::{self, st};
use std::sync::Arc;

/// Numbers modulo p, or fractions (p = 0) in lowest terms; `None` where i128 does not suffice.
#[derive(Clone, Copy)]
struct Fl(i128);
type N = (i128, i128);
impl Fl {
    fn imp(&self, (n, d): (i64, i64)) -> Option<N> {
        if self.0 == 0 {
            if d == 0 {
                return None;
            }
            return Some(lowest(n as i128, d as i128));
        }
        let v = ((n as i128).rem_euclid(self.0), 1);
        if d == 1 {
            Some(v)
        } else {
            self.div(v, ((d as i128).rem_euclid(self.0), 1))
        }
    }
    fn add(&self, a: N, b: N) -> Option<N> {
        if self.0 != 0 {
            return Some(((a.0 + b.0) % self.0, 1));
        }
        let n = a.0.checked_mul(b.1)?.checked_add(b.0.checked_mul(a.1)?)?;
        Some(lowest(n, a.1.checked_mul(b.1)?))
    }
    fn neg(&self, a: N) -> N {
        if self.0 != 0 {
            ((self.0 - a.0) % self.0, 1)
        } else {
            (-a.0, a.1)
        }
    }
    fn mul(&self, a: N, b: N) -> Option<N> {
        if self.0 != 0 {
            return Some((a.0 * b.0 % self.0, 1));
        }
        Some(lowest(a.0.checked_mul(b.0)?, a.1.checked_mul(b.1)?))
    }
    fn div(&self, a: N, b: N) -> Option<N> {
        if b.0 == 0 {
            return None;
        }
        if self.0 != 0 {
            let (mut e, mut x, mut r) = (self.0 - 2, b.0, 1);
            while e > 0 {
                if e & 1 == 1 {
                    r = r * x % self.0;
                }
                x = x * x % self.0;
                e >>= 1;
            }
            return Some((a.0 * r % self.0, 1));
        }
        Some(lowest(a.0.checked_mul(b.1)?, a.1.checked_mul(b.0)?))
    }
}
#[derive(Clone)]
struct M {
    r: usize,
    c: usize,
    e: Vec<N>,
}
impl M {
    fn at(&self, i: usize, j: usize) -> N {
        self.e[i * self.c + j]
    }
    fn mul(&self, o: &M, f: Fl) -> Option<M> {
        let mut e = vec![];
        for i in 0..self.r {
            for j in 0..o.c {
                let mut s = (0, 1);
                for k in 0..self.c {
                    s = f.add(s, f.mul(self.at(i, k), o.at(k, j))?)?;
                }
                e.push(s);
            }
        }
        Some(M { r: self.r, c: o.c, e })
    }
    fn rank(&self, f: Fl) -> Option<usize> {
        let mut m = self.clone();
        let mut r = 0;
        for c in 0..m.c {
            let Some(p) = (r..m.r).find(|i| m.at(*i, c).0 != 0) else { continue };
            for k in 0..m.c {
                m.e.swap(p * m.c + k, r * m.c + k);
            }
            for i in r + 1..m.r {
                let q = f.neg(f.div(m.at(i, c), m.at(r, c))?);
                for k in c..m.c {
                    m.e[i * m.c + k] = f.add(m.at(i, k), f.mul(q, m.at(r, k))?)?;
                }
            }
            r += 1;
        }
        Some(r)
    }
    /// Side by side.
    fn join(ms: &[M], rows: usize) -> M {
        let c = ms.iter().map(|m| m.c).sum();
        let mut e = vec![];
        for i in 0..rows {
            for m in ms {
                for j in 0..m.c {
                    e.push(m.at(i, j));
                }
            }
        }
        M { r: rows, c, e }
    }
}
fn show(m: &M) -> String {
    (0..m.r)
        .map(|i| (0..m.c).map(|j| { let x = m.at(i, j); if x.1 == 1 { format!("{}", x.0) } else { format!("{}/{}", x.0, x.1) } }).collect::<Vec<_>>().join(" "))
        .collect::<Vec<_>>()
        .join("; ")
}
/// Err: malformed; Ok(None): a number of more than 128 bits.
fn read_mats(s: &str, f: Fl) -> Result<Option<Vec<M>>, String> {
    let mut v = vec![];
    for g in s.split(';').filter(|x| !x.is_empty()) {
        let (h, b) = g.split_once(':').unwrap();
        let (r, c) = h.split_once(' ').unwrap();
        let (r, c): (usize, usize) = (r.parse().unwrap(), c.parse().unwrap());
        let mut e = vec![];
        for x in b.split(' ').filter(|x| !x.is_empty()) {
            let (n, d) = x.split_once(',').unwrap();
            let (n, d): (i64, i64) = (n.parse().unwrap(), d.parse().unwrap());
            if d == 0 {
                return Err("an entry with denominator zero".into());
            }
            match f.imp((n, d)) {
                Some(x) => e.push(x),
                None => return Ok(None),
            }
        }
        if e.len() != r * c {
            return Err(format!("a {} by {} matrix with {} entries", r, c, e.len()));
        }
        v.push(M { r, c, e });
    }
    Ok(Some(v))
}
/// Some(message) if the results are wrong; None if right or beyond the reference's numbers.
fn judge(a: &M, f: Fl, text: &str) -> Option<Option<String>> {
    let part: Vec<&str> = text.split('|').collect();
    let get = |s: &str| match read_mats(s, f) {
        Ok(Some(m)) => Ok(m),
        Ok(None) => Err(None),
        Err(m) => Err(Some(m)),
    };
    let lists = (|| Ok::<_, Option<String>>((get(part[0])?, get(part[2])?, get(part[3])?)))();
    let (plu, ker, ran) = match lists {
        Ok(x) => x,
        Err(None) => return None,
        Err(Some(m)) => return Some(Some(m)),
    };
    let dims: Vec<usize> = part[1].split(' ').map(|x| x.parse().unwrap()).collect();
    let bad = |m: String| Some(Some(m));
    let (p, l, u) = (&plu[0], &plu[1], &plu[2]);
    let (n, m) = (a.r, a.c);
    if (p.r, p.c) != (n, n) || (l.r, l.c) != (n, n) || (u.r, u.c) != (n, m) {
        return bad(format!("P, L, U have shapes {}x{}, {}x{}, {}x{}", p.r, p.c, l.r, l.c, u.r, u.c));
    }
    for i in 0..n {
        let row: Vec<usize> = (0..n).filter(|j| p.at(i, *j).0 != 0).collect();
        let col: Vec<usize> = (0..n).filter(|j| p.at(*j, i).0 != 0).collect();
        if row.len() != 1 || col.len() != 1 || p.at(i, row[0]) != (1, 1) {
            return bad(format!("P is no permutation: {}", show(p)));
        }
        if (i + 1..n).any(|j| l.at(i, j).0 != 0) {
            return bad(format!("L is not lower triangular: {}", show(l)));
        }
    }
    let mut last: i64 = -1;
    for i in 0..n {
        let lead = (0..m).find(|j| u.at(i, *j).0 != 0).map_or(i64::MAX, |j| j as i64);
        if lead != i64::MAX && lead <= last || last == i64::MAX && lead != i64::MAX {
            return bad(format!("U is not in row echelon form: {}", show(u)));
        }
        last = lead;
    }
    let pa = p.mul(a, f)?;
    let lu = l.mul(u, f)?;
    if pa.e != lu.e {
        return bad(format!("PA is [{}] but LU is [{}]", show(&pa), show(&lu)));
    }
    let rank = a.rank(f)?;
    if dims != [rank, m - rank, rank, m - rank] {
        return bad(format!("rank and nullity {}, {} of the echelon form and {}, {} of the reduced one, should be {}, {}", dims[0], dims[1], dims[2], dims[3], rank, m - rank));
    }
    if ker.len() != m - rank || ker.iter().any(|v| (v.r, v.c) != (m, 1)) {
        return bad(format!("{} kernel vectors of shapes {:?}, nullity {}", ker.len(), ker.iter().map(|v| (v.r, v.c)).collect::<Vec<_>>(), m - rank));
    }
    for v in &ker {
        if a.mul(v, f)?.e.iter().any(|x| x.0 != 0) {
            return bad(format!("kernel vector [{}] is not in the kernel", show(v)));
        }
    }
    if M::join(&ker, m).rank(f)? != ker.len() {
        return bad("the kernel vectors are not independent".into());
    }
    if ran.len() != rank || ran.iter().any(|v| (v.r, v.c) != (n, 1)) {
        return bad(format!("{} range vectors of shapes {:?}, rank {}", ran.len(), ran.iter().map(|v| (v.r, v.c)).collect::<Vec<_>>(), rank));
    }
    if M::join(&ran, n).rank(f)? != rank {
        return bad("the range vectors are not independent".into());
    }
    for v in &ran {
        if M::join(&[a.clone(), v.clone()], n).rank(f)? != rank {
            return bad(format!("range vector [{}] is not in the column space", show(v)));
        }
    }
    Some(None)
}

const P: [i128; 5] = [2, 7, 32003, 0, 0];
fn parse(c: &Case) -> (Vec<Grid>, Vec<Vec<Run>>) {
    let n = c.n("threads").clamp(1, 4);
    let mut g = vec![];
    for i in c.of("mat") {
        let (r, k) = (i.u(0).clamp(1, 10), i.u(1).clamp(1, 10));
        g.push(Grid { rows: r, cols: k, e: (0..r * k).map(|j| (i.g(2 + 2 * j), if i.g(3 + 2 * j) == 0 { 1 } else { i.g(3 + 2 * j) })).collect() });
    }
    let mut t = vec![vec![]; n];
    if !g.is_empty() {
        for i in c.of("run") {
            let pivots = if i.g(2) > 0 { Some((i.g(3) as u64, i.g(2) as u64)) } else { None };
            t[i.u(0) % n].push(Run { mat: i.u(1) % g.len(), pivots, panic_at: i.g(4).max(0) as u64, order: i.g(5) as u64 });
        }
    }
    (g, t)
}
pub fn run(ctx: &mut Ctx, case: &Case) -> Verdict {
    let (grids, threads) = parse(case);
    let total: usize = threads.iter().map(|t| t.len()).sum();
    if total == 0 {
        return Verdict::discard();
    }
    let field = case.n("field") % 5;
    let f = Fl(P[field]);
    let n = threads.len();
    let before = ctx.totals.stats;
    let jitter = case.u("jitter");
    let (g2, t2) = (grids.clone(), Arc::new(threads.clone()));
    let c2 = case.clone();
    let r = ctx.child(move || {
        simrt::alloc::arena(jitter);
        sched::setup(config(&c2, n, total as u64 * 2_000_000 + 1_000_000));
        let mats = Arc::new(AnyMats::new(field, &g2));
        let log = sched::run(move |t| {
            sched::masked(|| {
                mats.runs(&t2[t], &mut |k, o| {
                    shm::emit(format!("R\x1f{}\x1f{}\x1f{}\x1f{}\x1f{}\x1f{}", t, k, o.status as u64, o.msg, o.differs.unwrap_or_default(), o.text).as_bytes());
                })
            })
        });
        finish_log(log, 0);
    });
    let mut v = Verdict::ok(0);
    read_log(&mut v, &r.recs);
    for rec in &r.recs {
        if !rec.starts_with(b"R\x1f") {
            continue;
        }
        let s = String::from_utf8_lossy(rec).into_owned();
        let p: Vec<&str> = s.splitn(7, '\x1f').collect();
        let (t, k): (usize, usize) = (p[1].parse().unwrap(), p[2].parse().unwrap());
        v.log ^= hash128(rec).0.rotate_left(k as u32);
        let run = &threads[t][k];
        let a = &grids[run.mat];
        let pref = run.pivots.map_or("own preference".to_string(), |(s, l)| format!("preference seed {} with {} classes", s, l));
        let am = M { r: a.rows, c: a.cols, e: a.e.iter().map(|x| f.imp(*x).unwrap_or((0, 1))).collect() };
        let name = format!("{} matrix [{}], {}", simops::elim::ELIM_FIELDS[field], show(&am), pref);
        let bad = |c: &str, m: String| Some((c.to_string(), format!("{}: {}", name, clip(&m))));
        if v.viol.is_some() {
            continue;
        }
        if p[3] == (Status::Panicked as u64).to_string() && !p[4].contains("overflow") {
            v.viol = bad("panics", format!("panicked: {}", p[4]));
        } else if !p[5].is_empty() {
            v.viol = bad("depends-on-pivots", format!("the {} differs from that of another pivot preference", p[5]));
        }
        if v.viol.is_none() && p[3] == (Status::Done as u64).to_string() {
            if let Some(Some(m)) = judge(&am, f, p[6]) {
                v.viol = bad("wrong", m);
            }
        }
    }
    if v.viol.is_none() {
        v.viol = bad_end(&r);
    }
    let d = |i: usize| ctx.totals.stats[i] - before[i];
    v.nontrivial = d(st::PIVOT_CHOICES) > 0;
    v
}

fn entry(r: &mut Rng, field: usize, style: u64) -> (i64, i64) {
    match field {
        0 => (r.below(2) as i64, 1),
        1 => (r.below(7) as i64, 1),
        2 => (if r.chance(1, 2) { r.below(4) as i64 } else { r.below(32003) as i64 }, 1),
        _ => match style {
            0 => (r.range(0, 2), 1),
            1 => (r.range(-2, 2), 1),
            2 => (r.range(-4, 4), *r.pick(&[1, 1, 2, 2, 3, 4, 6])),
            _ => (if r.chance(1, 2) { 0 } else { r.range(-9, 9) }, *r.pick(&[1, 1, 1, 2, 3, 5])),
        },
    }
}
pub fn gen(_: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C14");
    let field = r.us(5);
    c.set("field", field as i64);
    let n = if r.chance(1, 2) { 1 } else { 2 + r.us(2) };
    c.set("threads", n as i64);
    if r.chance(1, 3) {
        c.set("entropy", (2 + r.below(1 << 40)) as i64);
    }
    if r.chance(1, 3) {
        c.set("jitter", r.below(1 << 30) as i64);
    }
    let nm = 1 + r.us(2);
    let top = match (field < 3, r.chance(1, 5)) {
        (true, false) => 6,
        (true, true) => 10,
        (false, false) => 4,
        (false, true) => 6,
    };
    let mut size = 0;
    for _ in 0..nm {
        let (rows, cols) = (1 + r.us(top), 1 + r.us(top));
        let style = r.below(4);
        let mut e: Vec<(i64, i64)> = (0..rows * cols).map(|_| entry(r, field, style)).collect();
        // Zero columns, equal rows, and combinations of rows, so that ranks vary.
        if r.chance(1, 4) {
            let k = r.us(cols);
            (0..rows).for_each(|i| e[i * cols + k] = (0, 1));
        }
        if r.chance(1, 4) {
            let (i, j) = (r.us(rows), r.us(rows));
            (0..cols).for_each(|k| e[i * cols + k] = e[j * cols + k]);
        }
        if r.chance(1, 4) && rows > 2 && (style < 2 || field < 3) {
            let (i, j, l) = (r.us(rows), r.us(rows), r.us(rows));
            (0..cols).for_each(|k| e[i * cols + k] = (e[j * cols + k].0 + e[l * cols + k].0, 1));
        }
        if r.chance(1, 6) {
            let k = r.us(rows);
            (0..cols).for_each(|j| e[k * cols + j] = (0, 1));
        }
        let mut v = vec![rows as i64, cols as i64];
        e.iter().for_each(|(a, b)| v.extend([*a, *b]));
        size += rows * cols * rows.min(cols);
        c.push("mat", v);
    }
    let runs = 2 + r.us(6);
    for _ in 0..runs {
        let levels = if field == 4 { 0 } else { *r.pick(&[0, 1, 2, 3, 8, 1 << 60]) };
        let cut = if r.chance(1, 6) { crash_point(r, 30 * size as u64, &[]) } else { 0 };
        c.push("run", vec![r.us(n) as i64, r.us(nm) as i64, levels, r.below(1 << 30) as i64, cut as i64, r.below(4) as i64]);
    }
    if n > 1 {
        schedule(r, &mut c, n, runs as u64 * size as u64 * 150);
    }
    c
}
