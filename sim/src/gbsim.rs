//! C01 and C02: Groebner basis computations cut short at chosen callbacks, resumed, edited and
//! resumed again; ideals and final bases are compared through the reference.
use crate::case::{Case, Item};
use crate::ctx::{bad_end, Ctx, Verdict};
use crate::refgb::{primes, Poly, Ring};
use simops::gb::{AnyList, Plain};
use simrt::calls::{Plan, Status};
use simrt::rng::{hash128, mix, Rng};
use simrt::sched::{self, Config};
use simrt::shm::{self, bump, st};
use simrt::sites;
use std::collections::HashMap;

const CLEAN_CAP: u64 = 400_000;
const REF_BUDGET: u64 = 3_000_000;

fn stride(nv: usize) -> usize {
    2 + nv
}
fn read_poly(v: &[i64], nv: usize) -> Plain {
    v.chunks(stride(nv))
        .map(|c| {
            let at = |i: usize| c.get(i).copied().unwrap_or(0);
            (at(0), at(1).abs().max(1), (0..nv).map(|i| at(2 + i).unsigned_abs().min(60) as u8).collect())
        })
        .collect()
}
fn put_poly(v: &mut Vec<i64>, p: &Plain, nv: usize) {
    for (n, d, m) in p {
        v.push(*n);
        v.push(*d);
        for i in 0..nv {
            v.push(m.get(i).copied().unwrap_or(0) as i64);
        }
    }
}
fn enc_list(l: &[Plain]) -> String {
    l.iter()
        .map(|p| p.iter().map(|(n, d, m)| format!("{},{},{}", n, d, m.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."))).collect::<Vec<_>>().join(" "))
        .collect::<Vec<_>>()
        .join(";")
        + if l.is_empty() { "" } else { ";" }
}
fn dec_list(s: &str) -> Vec<Plain> {
    let mut v: Vec<&str> = s.split(';').collect();
    v.pop();
    v.iter()
        .map(|p| {
            p.split(' ')
                .filter(|t| !t.is_empty())
                .map(|t| {
                    let f: Vec<&str> = t.split(',').collect();
                    (f[0].parse().unwrap(), f[1].parse().unwrap(), f[2].split('.').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
                })
                .collect()
        })
        .collect()
}

#[derive(Clone)]
enum Act {
    Attempt { l: usize, cut: u64 },
    Edit { l: usize, kind: u64, i: usize, j: usize, p: Plain },
}
struct Setup {
    field: usize,
    ord: u64,
    nv: usize,
    lists: Vec<Vec<Plain>>,
    acts: Vec<Act>,
}
fn parse(case: &Case) -> Setup {
    let nv = case.n("vars").clamp(1, 4);
    let n = case.n("lists").clamp(1, 3);
    let mut s = Setup { field: case.n("field") % 4, ord: case.u("ord"), nv, lists: vec![vec![]; n], acts: vec![] };
    for i in &case.items {
        match i.tag.as_str() {
            "gen" => {
                let p = read_poly(&i.v[1.min(i.v.len())..], nv);
                s.lists[i.u(0) % n].push(p)
            }
            "attempt" => s.acts.push(Act::Attempt { l: i.u(0) % n, cut: i.g(1).max(0) as u64 }),
            "edit" => s.acts.push(Act::Edit { l: i.u(0) % n, kind: i.g(1).max(0) as u64, i: i.u(2), j: i.u(3), p: read_poly(&i.v[4.min(i.v.len())..], nv) }),
            _ => {}
        }
    }
    s
}
/// The reduced bases of a list's ideal modulo the field's characteristic, or modulo three large
/// primes. A prime that divides a denominator contributes nothing.
type Id = Vec<Option<Vec<Poly>>>;
struct Judge {
    nv: usize,
    ord: u64,
    ps: Vec<u64>,
    cache: HashMap<String, Option<Id>>,
}
impl Judge {
    fn new(field: usize, nv: usize, ord: u64) -> Judge {
        let ps = match field {
            0 => vec![2],
            1 => vec![7],
            2 => vec![32003],
            _ => primes().to_vec(),
        };
        Judge { nv, ord, ps, cache: HashMap::new() }
    }
    /// `None`: too expensive to say.
    fn ideal(&mut self, l: &[Plain]) -> Option<Id> {
        let key = enc_list(l);
        if let Some(x) = self.cache.get(&key) {
            return x.clone();
        }
        let mut out = vec![];
        let mut ok = true;
        for p in &self.ps {
            let mut r = Ring { p: *p, nv: self.nv, ord: self.ord, budget: REF_BUDGET };
            match l.iter().map(|f| r.import(f)).collect::<Option<Vec<_>>>() {
                None => out.push(None),
                Some(g) => match r.basis(&g) {
                    Some(b) => out.push(Some(b)),
                    None => ok = false,
                },
            }
        }
        let v = if ok { Some(out) } else { None };
        self.cache.insert(key, v.clone());
        v
    }
    /// A variable that should not be there, or a denominator of zero.
    fn malformed(&self, l: &[Plain]) -> bool {
        l.iter().flatten().any(|(_, d, m)| *d == 0 || m.iter().skip(self.nv).any(|x| *x != 0))
    }
}
/// Do they differ for every prime?
fn differ(a: &Id, b: &Id) -> bool {
    a.iter().zip(b).all(|(x, y)| match (x, y) {
        (Some(x), Some(y)) => x != y,
        _ => false,
    })
}
fn show(l: &[Plain]) -> String {
    l.iter()
        .map(|p| {
            if p.is_empty() {
                return "0".to_string();
            }
            p.iter()
                .map(|(n, d, m)| {
                    let mut s = if *d == 1 { format!("{}", n) } else { format!("{}/{}", n, d) };
                    for (i, e) in m.iter().enumerate() {
                        if *e > 0 {
                            s += &format!("*x{}^{}", i, e);
                        }
                    }
                    s
                })
                .collect::<Vec<_>>()
                .join(" + ")
        })
        .collect::<Vec<_>>()
        .join(", ")
}
fn cfg(cap: u64) -> Config {
    Config { threads: 1, step_cap: cap, entropy: 1, ..Config::default() }
}
/// One uninterrupted computation in a process of its own: (callbacks, steps).
fn clean(ctx: &mut Ctx, field: usize, ord: u64, list: &[Plain], cap: u64) -> Option<(u64, u64, Vec<[u32; 3]>)> {
    let keep = ctx.totals.stats;
    ctx.totals.baselines += 1;
    let r = ctx.child(|| {
        simrt::alloc::arena(0);
        sched::setup(cfg(cap));
        let list = list.to_vec();
        sched::run(move |_| {
            sched::masked(|| {
                let mut l = AnyList::new(field, &list);
                let a = sched::steps();
                sites::start();
                let (s, m, n) = l.attempt(ord, &Plan::default());
                sites::stop();
                let natural = s != Status::Done && !m.contains("overflow");
                if s == Status::Done || natural {
                    shm::emit(format!("{}\x1f{}\x1f{}", n, sched::steps() - a, sites::summary(sites::CALLBACK)).as_bytes());
                }
            })
        });
    });
    ctx.totals.stats = keep;
    let t = String::from_utf8_lossy(r.recs.last()?).into_owned();
    let mut f = t.split('\x1f');
    Some((f.next()?.parse().ok()?, f.next()?.parse().ok()?, sites::parse(f.next()?)))
}

struct Rec {
    act: usize,
    l: usize,
    status: u64,
    msg: String,
    before: Vec<Plain>,
    after: Vec<Plain>,
    fin: bool,
}
fn execute(ctx: &mut Ctx, case: &Case, cap: u64, finish: bool) -> (simrt::shm::RunOut, Vec<Rec>) {
    let jitter = case.u("jitter");
    let case2 = case.clone();
    let r = ctx.child(move || {
        simrt::alloc::arena(jitter);
        sched::setup(cfg(cap));
        let s = std::sync::Arc::new(parse(&case2));
        sched::run(move |_| {
            sched::masked(|| {
                let mut ls: Vec<AnyList> = s.lists.iter().map(|l| AnyList::new(s.field, l)).collect();
                let mut acts = s.acts.clone();
                let n = acts.len();
                if finish {
                    for l in 0..ls.len() {
                        acts.push(Act::Attempt { l, cut: 0 });
                    }
                }
                for (k, a) in acts.into_iter().enumerate() {
                    match a {
                        Act::Edit { l, kind, i, j, p } => {
                            ls[l].edit(kind, i, j, &p);
                        }
                        Act::Attempt { l, cut } => {
                            let before = enc_list(&ls[l].export());
                            shm::emit(format!("B\x1f{}\x1f{}\x1f{}", k, l, before).as_bytes());
                            let (st_, m, _) = ls[l].attempt(s.ord, &Plan { panic_at: cut, ..Plan::default() });
                            if cut == 0 || st_ == Status::Done {
                                bump(st::RESUMES, 1);
                            }
                            let after = enc_list(&ls[l].export());
                            shm::emit(format!("A\x1f{}\x1f{}\x1f{}\x1f{}\x1f{}\x1f{}\x1f{}", k, l, st_ as u64, m, before, after, (k >= n) as u8).as_bytes());
                        }
                    }
                }
            })
        });
    });
    let mut v = vec![];
    for rec in &r.recs {
        let s = String::from_utf8_lossy(rec).into_owned();
        let f: Vec<&str> = s.split('\x1f').collect();
        if f[0] == "A" && f.len() == 8 {
            v.push(Rec {
                act: f[1].parse().unwrap(),
                l: f[2].parse().unwrap(),
                status: f[3].parse().unwrap(),
                msg: f[4].into(),
                before: dec_list(f[5]),
                after: dec_list(f[6]),
                fin: f[7] == "1",
            });
        }
    }
    (r, v)
}
/// Not monic, or a term divisible by another element's leading term, or a repeated or zero term.
fn not_reduced(l: &[Plain], nv: usize, ord: u64, field: usize) -> Option<String> {
    let r = Ring { p: 0, nv, ord, budget: 0 };
    let mut lead = vec![];
    for (k, p) in l.iter().enumerate() {
        let ms: Vec<Vec<u32>> = p.iter().map(|t| { let mut m: Vec<u32> = t.2.iter().map(|x| *x as u32).collect(); m.resize(nv, 0); m }).collect();
        let Some(b) = (0..p.len()).max_by(|a, b| r.cmp(&ms[*a], &ms[*b])) else {
            return Some(format!("element {} is zero", k));
        };
        for i in 0..p.len() {
            if p[i].0 == 0 {
                return Some(format!("element {} has a zero term", k));
            }
            if (0..i).any(|j| ms[j] == ms[i]) {
                return Some(format!("element {} has two terms of the same multidegree", k));
            }
        }
        let c = &p[b];
        let one = if field == 3 { c.0 == c.1 } else { c.0 == 1 };
        if !one {
            return Some(format!("element {} is not monic", k));
        }
        lead.push((ms[b].clone(), ms));
    }
    for i in 0..lead.len() {
        for j in 0..lead.len() {
            if i != j && lead[i].1.iter().any(|m| crate::refgb::divides(&lead[j].0, m)) {
                return Some(format!("a term of element {} is divisible by the leading term of element {}", i, j));
            }
        }
    }
    None
}

pub fn run(ctx: &mut Ctx, case: &Case) -> Verdict {
    let s = parse(case);
    let c02 = case.prop == "C02";
    let mut s0 = 0;
    for l in &s.lists {
        match clean(ctx, s.field, s.ord, l, CLEAN_CAP) {
            Some((_, st, _)) => s0 += st,
            None => return Verdict::discard(),
        }
    }
    let mut judge = Judge::new(s.field, s.nv, s.ord);
    let attempts = s.acts.iter().filter(|a| matches!(a, Act::Attempt { .. })).count() as u64 + s.lists.len() as u64;
    let edits = s.acts.iter().any(|a| matches!(a, Act::Edit { .. }));
    let mut cap = attempts * (50 * s0 + 2_000_000);
    let (mut r, mut recs) = execute(ctx, case, cap, c02);
    let capped = |r: &simrt::shm::RunOut| matches!(r.end, shm::End::Exit(77));
    if capped(&r) {
        if edits {
            // An edited list may be a much harder problem.
            return Verdict::discard();
        }
        cap *= 20;
        let x = execute(ctx, case, cap, c02);
        r = x.0;
        recs = x.1;
    }
    let mut log = 1;
    let mut hit = false;
    for rec in &recs {
        log = mix(log ^ rec.status ^ hash128(enc_list(&rec.after).as_bytes()).0);
        hit |= rec.status == 1;
        let name = format!("attempt {} (list {}, {})", rec.act, rec.l, match rec.status { 0 => "completed".into(), 1 => "unwound".into(), _ => format!("panicked: {}", rec.msg) });
        let Some(a) = judge.ideal(&rec.before) else { return Verdict::discard() };
        if judge.malformed(&rec.after) {
            return Verdict::bad("ideal-changed", format!("{} left a malformed list: {}", name, show(&rec.after)));
        }
        let Some(b) = judge.ideal(&rec.after) else { return Verdict::discard() };
        if !c02 {
            if differ(&a, &b) {
                return Verdict::bad("ideal-changed", format!("{} changed the ideal: before [{}], after [{}]", name, show(&rec.before), show(&rec.after)));
            }
            continue;
        }
        if rec.status == 2 && !rec.msg.contains("overflow") {
            return Verdict::bad("panics", format!("{} on [{}]", name, show(&rec.before)));
        }
        if rec.fin && rec.status == 2 {
            continue;
        }
        if rec.status == 0 {
            if differ(&a, &b) {
                return Verdict::bad("wrong-basis", format!("{} produced a basis of another ideal: from [{}], got [{}]", name, show(&rec.before), show(&rec.after)));
            }
            if let Some(m) = not_reduced(&rec.after, s.nv, s.ord, s.field) {
                return Verdict::bad("not-reduced", format!("{}: {}: from [{}], got [{}]", name, m, show(&rec.before), show(&rec.after)));
            }
            // As a set it must be the reduced basis itself.
            let mut bad = true;
            for (k, p) in judge.ps.iter().enumerate() {
                let ring = Ring { p: *p, nv: s.nv, ord: s.ord, budget: 0 };
                let got = rec.after.iter().map(|f| ring.import(f)).collect::<Option<Vec<_>>>();
                match (got, &a[k]) {
                    (Some(mut g), Some(want)) => {
                        g.sort();
                        bad &= g != *want;
                    }
                    _ => bad = false,
                }
            }
            if bad {
                return Verdict::bad("not-the-reduced-basis", format!("{}: from [{}], got [{}]", name, show(&rec.before), show(&rec.after)));
            }
        }
    }
    if let Some((c, m)) = bad_end(&r) {
        if c02 || !capped(&r) {
            return Verdict::bad(&c, m);
        }
    }
    let mut v = Verdict::ok(log);
    v.nontrivial = hit;
    v
}

fn rand_poly(r: &mut Rng, nv: usize, field: usize) -> Plain {
    let style = r.below(6);
    let nt = 1 + r.us(if style == 0 { 5 } else { 3 });
    let mut p: Plain = vec![];
    for _ in 0..nt {
        let m: Vec<u8> = match style {
            1 => {
                // linear
                let k = r.us(nv + 1);
                (0..nv).map(|i| (i == k) as u8).collect()
            }
            2 => (0..nv).map(|_| r.below(2) as u8).collect(),
            3 => (0..nv).map(|_| if r.chance(1, 2) { 0 } else { r.below(4) as u8 }).collect(),
            _ => (0..nv).map(|_| r.below(3) as u8).collect(),
        };
        if p.iter().any(|t| t.2 == m) {
            continue;
        }
        let (n, d) = match field {
            0 => (1, 1),
            1 => (1 + r.below(6) as i64, 1),
            2 => (if r.chance(2, 3) { r.range(1, 5) } else { r.range(1, 32002) }, 1),
            _ => (
                loop {
                    let n = r.range(-4, 4);
                    if n != 0 {
                        break n;
                    }
                },
                if r.chance(1, 6) { r.range(2, 4) } else { 1 },
            ),
        };
        p.push((n, d, m));
    }
    p
}
/// Differences of monomials, whose bases are large while coefficients stay small.
fn binomials(r: &mut Rng, nv: usize, field: usize) -> Vec<Plain> {
    let e = 3 + r.below(2);
    let m = |r: &mut Rng| -> Vec<u8> { (0..nv).map(|_| r.below(e) as u8).collect() };
    let minus = if field == 0 { 1 } else { -1 };
    (0..3 + r.us(2))
        .map(|_| {
            let (a, b) = (m(r), m(r));
            if a == b {
                vec![(1, 1, a)]
            } else {
                vec![(1, 1, a), (minus, 1, b)]
            }
        })
        .collect()
}
pub fn gen(ctx: &mut Ctx, id: &str, r: &mut Rng) -> Case {
    let mut last = Case::new(id);
    for _ in 0..12 {
        let mut c = Case::new(id);
        let field = r.us(4);
        let nv = 1 + r.us(3);
        c.set("field", field as i64);
        c.set("vars", nv as i64);
        let ord = match r.below(10) {
            0..=5 => r.below(4),
            6 | 7 => 4 + r.below(40),
            _ => 100 + r.below(4),
        };
        c.set("ord", ord as i64);
        let nl = if r.chance(1, 4) { 2 } else { 1 };
        c.set("lists", nl);
        if r.chance(1, 2) {
            c.set("jitter", 1 + r.below(1 << 30) as i64);
        }
        let mut cost = vec![];
        for l in 0..nl as usize {
            let n = match r.below(8) {
                0 => 1,
                1..=4 => 2,
                _ => 3,
            };
            let mut polys: Vec<Plain> = if r.chance(1, 6) { binomials(r, nv, field) } else { (0..n).map(|_| rand_poly(r, nv, field)).collect() };
            if r.chance(1, 6) {
                let k = r.us(polys.len());
                polys.push(polys[k].clone());
            }
            match clean(ctx, field, ord, &polys, CLEAN_CAP) {
                Some(x) => cost.push(x),
                None => break,
            }
            for p in &polys {
                let mut v = vec![l as i64];
                put_poly(&mut v, p, nv);
                c.items.push(Item { tag: "gen".into(), v });
            }
        }
        last = c;
        if cost.len() == nl as usize && cost.iter().any(|x| x.0 > 12) {
            let c = &mut last;
            let na = 1 + r.us(5);
            for _ in 0..na {
                let l = r.us(nl as usize);
                let n = cost[l].0.max(1);
                let places = &cost[l].2;
                let cut = match r.below(12) {
                    8..=11 if !places.is_empty() => r.pick(places)[r.us(3)] as u64,
                    0 => 1 + r.below(n.min(20)),
                    1 => n.saturating_sub(r.below(n.min(40))).max(1),
                    2 => n.saturating_sub(r.below(n / 4 + 1)).max(1),
                    3 if r.chance(1, 3) => 0,
                    _ => 1 + r.below(n),
                };
                c.push("attempt", vec![l as i64, cut as i64]);
                if r.chance(1, 8) {
                    let mut v = vec![l as i64, r.below(5) as i64, r.below(6) as i64, r.below(6) as i64];
                    put_poly(&mut v, &rand_poly(r, nv, field), nv);
                    c.push("edit", v);
                }
            }
            return last;
        }
    }
    last
}
