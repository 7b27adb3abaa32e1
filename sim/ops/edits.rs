//! In-place edits of matrices and rationals, each compared entry by entry with a table.
use crate::enc::{text, Enc};
use crate::fields::{Gf, Pq, SF};
use algeo::core::num::{Integer, Rational};
use algeo::linalg::mat::Mat;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use simrt::calls::{call, callback, suspended, CallOut, Plan, Status};
use simrt::rng::Rng;
use simrt::sched::masked;
use simrt::shm::{bump, st};

pub const EDIT_FIELDS: [&str; 5] = ["GF(7)", "GF(32003)", "Rational", "f64", "probed Rational"];
pub const KINDS: [&str; 15] = ["index_mut", "get_mut_unchecked", "swap", "scale_row", "permute_rows", "replace_row", "scale", "*=", "get_row_iter_mut", "get_col_iter_mut", "entry op=", "rational op=", "terms_mut", "degs_mut", "trim_zeros"];
#[derive(Clone, Debug)]
pub struct Edit {
    pub kind: usize,
    pub a: usize,
    pub b: usize,
    pub c: usize,
    pub cut: u64,
    pub mode: u64,
}
fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    suspended(|| masked(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()))
}
/// Mostly small; rationals now and then near the limits.
fn scalar<F: SF>(seed: u64, k: usize) -> F {
    let r = &mut Rng::sub(seed, k as u64);
    match r.below(16) {
        0 => F::of(0, 1),
        1 | 2 => F::of(1, 1),
        3 if F::WIDE => F::of(i64::MAX - r.below(3) as i64, 1 + r.below(2) as i64),
        4 if F::WIDE => F::of(r.range(-3, 3), i64::MAX / 2 - r.below(5) as i64),
        5..=7 if F::WIDE => F::of(r.range(-6, 6), r.range(1, 6)),
        _ => F::of(r.range(-3, 3), 1),
    }
}
fn apply_op<F: SF>(op: usize, x: F, y: F) -> F {
    match op % 4 {
        0 => x + y,
        1 => x - y,
        2 => x * y,
        _ => x / y,
    }
}
fn assign_op<F: SF>(op: usize, x: &mut F, y: F) {
    match op % 4 {
        0 => *x += y,
        1 => *x -= y,
        2 => *x *= y,
        _ => *x /= y,
    }
}
/// Walks a mutable iterator as a caller might; returns what it wrote, in visiting order.
fn walk<'a, T: 'a>(it: impl Iterator<Item = &'a mut T>, mode: u64, stop: usize, seen: &mut usize, write: impl Fn(usize, &mut T)) {
    let put = |i: usize, x: &mut T| {
        callback();
        write(i, x);
    };
    match mode % 5 {
        0 => {
            for (i, x) in it.enumerate() {
                if i == stop {
                    bump(st::ABANDONED, 1);
                    return;
                }
                *seen += 1;
                put(i, x);
            }
        }
        1 => {
            let v: Vec<&mut T> = it.collect();
            *seen = v.len();
            for (i, x) in v.into_iter().enumerate().rev() {
                put(i, x);
            }
        }
        2 => {
            for (i, x) in it.enumerate().step_by(2) {
                *seen += 1;
                put(i, x);
            }
        }
        3 => {
            for (i, x) in it.enumerate().skip(stop) {
                *seen += 1;
                put(i, x);
            }
        }
        _ => it.enumerate().for_each(|(i, x)| {
            *seen += 1;
            put(i, x)
        }),
    }
}
fn walked(mode: u64, stop: usize, len: usize) -> Vec<usize> {
    match mode % 5 {
        0 => (0..len.min(stop)).collect(),
        2 => (0..len).step_by(2).collect(),
        3 => (0..len).skip(stop).collect(),
        _ => (0..len).collect(),
    }
}
type Bad = (String, String);

fn mat_edit<F: SF>(m: &mut Mat<F>, e: &Edit, seed: u64, log: &mut String) -> Option<Bad> {
    let (rows, cols) = (m.rows(), m.cols());
    let old: Vec<F> = m.entries().to_vec();
    let at = |r: usize, c: usize| r * cols + c;
    let s: F = scalar(seed, e.c);
    let (r1, r2) = (e.a % rows, e.b % rows);
    let c1 = e.b % cols;
    let op = e.mode as usize;
    let stop = if e.mode / 8 % 3 == 0 { e.c % (rows.max(cols) + 1) } else { usize::MAX };
    let skip = if e.mode % 5 == 3 { e.c % (rows.max(cols) + 1) } else { stop };
    // (entry, its new value if that can be computed)
    let mut want: Vec<(usize, Option<F>)> = vec![];
    let mut count = None;
    let kind = e.kind % 15;
    match kind {
        0 | 1 => want.push((at(r1, c1), Some(s))),
        2 => {
            let (i, j) = (at(r1, c1), at(e.c % rows, e.a % cols));
            want.push((i, Some(old[j])));
            want.push((j, Some(old[i])));
        }
        3 => (0..cols).for_each(|c| want.push((at(r1, c), quiet(|| s * old[at(r1, c)])))),
        4 => (0..cols).for_each(|c| {
            want.push((at(r1, c), Some(old[at(r2, c)])));
            want.push((at(r2, c), Some(old[at(r1, c)])));
        }),
        5 => (0..cols).for_each(|c| want.push((at(r2, c), quiet(|| old[at(r2, c)] + old[at(r1, c)] * s)))),
        6 | 7 => (0..rows * cols).for_each(|i| want.push((i, quiet(|| old[i] * s)))),
        8 | 9 => {
            let len = if kind == 8 { cols } else { rows };
            let v = walked(e.mode, skip, len);
            count = Some(v.len());
            for i in v {
                let k = if kind == 8 { at(r1, i) } else { at(i, c1) };
                want.push((k, quiet(|| old[k] * s + F::of(i as i64 % 5, 1))));
            }
        }
        _ => want.push((at(r1, c1), quiet(|| apply_op(op, old[at(r1, c1)], s)))),
    }
    let mut seen = 0;
    // The i-th visited entry becomes its old value times s plus i.
    let put = |i: usize, x: &mut F| *x = *x * s + F::of(i as i64 % 5, 1);
    let o: CallOut<()> = call(&Plan { panic_at: e.cut, ..Plan::default() }, None, || match kind {
        0 => m[(r1, c1)] = s,
        1 => *m.get_mut_unchecked(r1, c1) = s,
        2 => m.swap((r1, c1), (e.c % rows, e.a % cols)),
        3 => m.scale_row(r1, s),
        4 => m.permute_rows(r1, r2),
        5 => m.replace_row(r1, r2, s),
        6 => m.scale(s),
        7 => *m *= s,
        8 => walk(m.get_row_iter_mut(r1), e.mode, skip, &mut seen, put),
        9 => walk(m.get_col_iter_mut(c1), e.mode, skip, &mut seen, put),
        _ => assign_op(op, &mut m[(r1, c1)], s),
    });
    bump(st::EDITS, 1);
    let _ = masked(|| suspended(|| {
        log.push_str(&format!("{:?} ", o.status));
        m.enc(log)
    }));
    let how = match o.status {
        Status::Done => "completed".to_string(),
        Status::Injected => format!("unwound at callback {}", e.cut),
        Status::Panicked => format!("panicked ({})", o.msg),
    };
    let args = match kind {
        0 | 1 | 10 => format!("({}, {}) with {}", r1, c1, text(&s)),
        2 => format!("({}, {}) ({}, {})", r1, c1, e.c % rows, e.a % cols),
        3 => format!("row {} by {}", r1, text(&s)),
        4 => format!("rows {} {}", r1, r2),
        5 => format!("row {} += {} * row {}", r2, text(&s), r1),
        8 => format!("row {} (way {}, {})", r1, e.mode % 5, skip as i64),
        9 => format!("column {} (way {}, {})", c1, e.mode % 5, skip as i64),
        _ => format!("by {}", text(&s)),
    };
    let title = || format!("{} {} on a {}x{} matrix {}", KINDS[kind], args, rows, cols, how);
    let natural = want.iter().any(|w| w.1.is_none());
    if o.status == Status::Panicked && !natural && !o.msg.contains("overflow") {
        return Some(("panics".into(), title()));
    }
    if m.rows() != rows || m.cols() != cols || m.entries().len() != rows * cols {
        return Some(("shape".into(), format!("{}: now {}x{} with {} entries", title(), m.rows(), m.cols(), m.entries().len())));
    }
    let now: Vec<F> = m.entries().to_vec();
    if o.status == Status::Done {
        if let Some(n) = count {
            if n != seen {
                return Some(("visits".into(), format!("{}: visited {} entries, not {}", title(), seen, n)));
            }
        }
    }
    for i in 0..rows * cols {
        let (x, was) = (text(&now[i]), text(&old[i]));
        let new = want.iter().rev().find(|w| w.0 == i).map(|w| w.1.as_ref().map(text));
        let ok = match (&new, o.status) {
            (None, _) => x == was,
            (Some(None), Status::Done) => true,
            (Some(None), _) => x == was,
            (Some(Some(n)), Status::Done) => x == *n,
            (Some(Some(n)), _) => x == *n || x == was,
        };
        if !ok {
            let class = if new.is_none() { "touched" } else if o.status == Status::Done { "wrong-entry" } else { "torn" };
            let should = match new {
                None => format!("{} (not addressed)", was),
                Some(Some(n)) if o.status == Status::Done => n,
                Some(n) => format!("{} or {}", was, n.unwrap_or("nothing else".into())),
            };
            return Some((class.into(), format!("{}: entry ({}, {}) is {}, should be {}", title(), i / cols, i % cols, x, should)));
        }
    }
    None
}
fn rat_edit(x: &mut Rational, e: &Edit, seed: u64, log: &mut String) -> Option<Bad> {
    let y: Rational = if e.a % 5 == 0 { Rational { numer: Integer::from(0), denom: Integer::from(1) } } else { scalar(seed, e.c) };
    let old = *x;
    let op = e.mode as usize;
    let want = quiet(|| apply_op(op, old, y));
    let o = call(&Plan::default(), None, || assign_op(op, x, y));
    bump(st::EDITS, 1);
    suspended(|| log.push_str(&format!("{:?} {}", o.status, text(x))));
    let title = format!("{} {}= {}", text(&old), ["+", "-", "*", "/"][op % 4], text(&y));
    match (o.status, want) {
        (Status::Done, Some(w)) if text(x) != text(&w) => Some(("wrong-entry".into(), format!("{} gives {}, should be {}", title, text(x), text(&w)))),
        (Status::Panicked, _) if text(x) != text(&old) => Some(("torn".into(), format!("{} panicked ({}) leaving {}", title, o.msg, text(x)))),
        (Status::Panicked, Some(_)) if !o.msg.contains("overflow") => Some(("panics".into(), format!("{} panicked: {}", title, o.msg))),
        _ => None,
    }
}
/// The terms of a polynomial through their mutable iterator.
fn poly_edit<F: SF>(p: &mut Polynomial<F>, e: &Edit, seed: u64, log: &mut String) -> Option<Bad> {
    let s: F = scalar(seed, e.c);
    let old: Vec<Term<F>> = p.terms.clone();
    let skip = if e.mode % 5 == 3 || e.mode / 8 % 3 == 0 { e.c % (old.len() + 1) } else { usize::MAX };
    let visited = walked(e.mode, skip, old.len());
    let mut seen = 0;
    let o: CallOut<()> = call(&Plan { panic_at: e.cut, ..Plan::default() }, None, || {
        walk(p.terms_mut(), e.mode, skip, &mut seen, |i, t| t.coef = t.coef * s + F::of(i as i64 % 5, 1))
    });
    bump(st::EDITS, 1);
    suspended(|| log.push_str(&format!("{:?} {}", o.status, text(p))));
    let title = format!("writing through terms_mut (way {}, {})", e.mode % 5, skip as i64);
    if p.terms.len() != old.len() {
        return Some(("shape".into(), format!("{}: {} terms now, {} before", title, p.terms.len(), old.len())));
    }
    if o.status == Status::Done && seen != visited.len() {
        return Some(("visits".into(), format!("{}: visited {} terms, not {}", title, seen, visited.len())));
    }
    for i in 0..old.len() {
        let (x, was) = (text(&p.terms[i]), text(&old[i]));
        let new = if visited.contains(&i) { quiet(|| Term { coef: old[i].coef * s + F::of(i as i64 % 5, 1), mdeg: old[i].mdeg.clone() }).map(|t| text(&t)) } else { Some(was.clone()) };
        let ok = Some(&x) == new.as_ref() || x == was && (o.status != Status::Done || new.is_none());
        if !ok {
            return Some(("wrong-entry".into(), format!("{}: term {} is {}, should be {}", title, i, x, new.unwrap_or(was))));
        }
    }
    None
}
/// The exponents of a multidegree, and its trailing zeros.
fn mdeg_edit(d: &mut MultiDegree, e: &Edit, log: &mut String) -> Option<Bad> {
    let old = d.0.clone();
    let trim = e.kind % 15 == 14;
    let skip = if e.mode % 5 == 3 || e.mode / 8 % 3 == 0 { e.c % (old.len() + 1) } else { usize::MAX };
    let mut seen = 0;
    let write = |i: usize, x: &mut u8| *x = if (e.a + i) % 3 == 0 { 0 } else { x.wrapping_mul(3).wrapping_add(i as u8 % 5) };
    let o: CallOut<()> = call(&Plan { panic_at: e.cut, ..Plan::default() }, None, || if trim { d.trim_zeros() } else { walk(d.degs_mut(), e.mode, skip, &mut seen, write) });
    bump(st::EDITS, 1);
    suspended(|| log.push_str(&format!("{:?} {:?}", o.status, d.0)));
    if trim {
        let keep = old.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
        return if o.status == Status::Done && d.0 == old[..keep] { None } else { Some(("wrong-entry".into(), format!("trimming {:?} gives {:?} ({:?})", old, d.0, o.status))) };
    }
    let visited = walked(e.mode, skip, old.len());
    let title = format!("writing through degs_mut (way {}, {})", e.mode % 5, skip as i64);
    if d.0.len() != old.len() {
        return Some(("shape".into(), format!("{}: {} exponents now, {} before", title, d.0.len(), old.len())));
    }
    if o.status == Status::Done && seen != visited.len() {
        return Some(("visits".into(), format!("{}: visited {} exponents, not {}", title, seen, visited.len())));
    }
    for i in 0..old.len() {
        let mut new = old[i];
        if visited.contains(&i) {
            write(i, &mut new);
        }
        if d.0[i] != new && (o.status == Status::Done || d.0[i] != old[i]) {
            return Some(("wrong-entry".into(), format!("{}: exponent {} of {:?} is {}, should be {}", title, i, old, d.0[i], new)));
        }
    }
    None
}
fn go<F: SF>(rows: usize, cols: usize, seed: u64, edits: &[Edit], emit: &mut dyn FnMut(usize, Option<Bad>, String)) {
    let mut m = masked(|| Mat::new(rows, cols, (0..rows * cols).map(|i| scalar::<F>(seed, 1000 + i)).collect()));
    let mut q: Rational = scalar(seed, 7);
    let (mut p, mut d) = masked(|| {
        let r = &mut Rng::sub(seed, 77);
        let n = r.us(8);
        (crate::world::gen_poly::<F>(r, 3, 4, n), crate::world::gen_mdeg(r, 6, 5))
    });
    // Clones of these two, and what they must stay.
    let mut spare: Vec<(Polynomial<F>, MultiDegree, String)> = vec![];
    // Other matrices, made from the edited one at some time: name, value, what it must stay.
    let mut kept: Vec<(String, Mat<F>, String)> = vec![];
    for (k, e) in edits.iter().enumerate() {
        let mut log = String::new();
        masked(|| {
            suspended(|| {
                let r = &mut Rng::sub(seed, 5000 + k as u64);
                if r.chance(1, 2) {
                    let (i, j) = (r.us(m.rows()), r.us(m.cols()));
                    let (name, x) = match r.below(6) {
                        0..=2 => ("a clone", m.clone()),
                        3 => ("the transpose", m.transpose()),
                        4 => ("a row", m.get_row(i)),
                        _ => ("a column", m.get_col(j)),
                    };
                    kept.push((format!("{} taken before edit {}", name, k), x.clone(), text(&x)));
                    // The clone is edited from here on, the original is kept.
                    if name == "a clone" && r.chance(1, 2) {
                        let now = text(&m);
                        kept.push((format!("the matrix cloned before edit {}", k), std::mem::replace(&mut m, x), now));
                    }
                }
                if r.chance(1, 4) {
                    let (p2, d2) = (p.clone(), d.clone());
                    let now = text(&(p2.clone(), d2.clone()));
                    if r.chance(1, 2) {
                        spare = vec![(p2, d2, now)];
                    } else {
                        spare = vec![(std::mem::replace(&mut p, p2), std::mem::replace(&mut d, d2), now)];
                    }
                }
                if kept.len() > 5 {
                    kept.swap_remove(r.us(5));
                }
            })
        });
        let mut bad = match e.kind % 15 {
            11 => rat_edit(&mut q, e, seed, &mut log),
            12 => poly_edit(&mut p, e, seed, &mut log),
            13 | 14 => mdeg_edit(&mut d, e, &mut log),
            _ => mat_edit(&mut m, e, seed, &mut log),
        };
        masked(|| {
            suspended(|| {
                if let Some(x) = kept.iter().find(|x| text(&x.1) != x.2) {
                    bad.get_or_insert(("another-changed".into(), format!("{} changed {}: {} now, {} before", KINDS[e.kind % 15], x.0, text(&x.1), x.2)));
                }
                if let Some(x) = spare.iter().find(|x| text(&(x.0.clone(), x.1.clone())) != x.2) {
                    bad.get_or_insert(("another-changed".into(), format!("{} changed a clone: {} now, {} before", KINDS[e.kind % 15], text(&(x.0.clone(), x.1.clone())), x.2)));
                }
            })
        });
        emit(k, bad, log);
    }
}
pub fn session(field: usize, rows: usize, cols: usize, seed: u64, edits: &[Edit], emit: &mut dyn FnMut(usize, Option<Bad>, String)) {
    match field % 5 {
        0 => go::<Gf<7>>(rows, cols, seed, edits, emit),
        1 => go::<Gf<32003>>(rows, cols, seed, edits, emit),
        2 => go::<Rational>(rows, cols, seed, edits, emit),
        3 => go::<f64>(rows, cols, seed, edits, emit),
        _ => go::<Pq>(rows, cols, seed, edits, emit),
    }
}
