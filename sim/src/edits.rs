//! C07: histories of in-place edits, some cut short.
use crate::case::Case;
use crate::ctx::{bad_end, Ctx, Verdict};
use crate::engine::{config, finish_log, read_log, schedule};
use simops::edits::{session, Edit, EDIT_FIELDS};
use simrt::rng::{hash128, Rng};
use simrt::sched;
use simrt::shm::{self, st};
use std::sync::Arc;

pub fn run(ctx: &mut Ctx, case: &Case) -> Verdict {
    let n = case.n("threads").clamp(1, 3);
    let mut t: Vec<Vec<Edit>> = vec![vec![]; n];
    for i in case.of("edit") {
        t[i.u(0) % n].push(Edit { kind: i.u(1), a: i.u(2), b: i.u(3), c: i.u(4), cut: i.g(5).max(0) as u64, mode: i.g(6).max(0) as u64 });
    }
    if t.iter().all(|x| x.is_empty()) {
        return Verdict::discard();
    }
    let (field, rows, cols) = (case.n("field") % 5, case.n("rows").clamp(1, 48), case.n("cols").clamp(1, 48));
    let seed = case.u("world");
    let c2 = case.clone();
    let before = ctx.totals.stats;
    let r = ctx.child(move || {
        simrt::alloc::arena(c2.u("jitter"));
        sched::setup(config(&c2, n, 4_000_000));
        let t = Arc::new(t);
        let log = sched::run(move |k| {
            sched::masked(|| {
                // Threads hold matrices of different shapes.
                let (r, c) = if k == 1 { (cols, rows) } else { (rows, cols) };
                session(field, r, c, seed ^ (k as u64) << 40, &t[k], &mut |i, bad, log| {
                    let (c, m) = bad.unwrap_or_default();
                    shm::emit(format!("E\x1f{}\x1f{}\x1f{}\x1f{}\x1f{}", k, i, c, m, log).as_bytes());
                })
            })
        });
        finish_log(log, 0);
    });
    let mut v = Verdict::ok(0);
    read_log(&mut v, &r.recs);
    for rec in &r.recs {
        if rec.starts_with(b"E\x1f") {
            v.log = v.log.rotate_left(3) ^ hash128(rec).0;
            let s = String::from_utf8_lossy(rec).into_owned();
            let p: Vec<&str> = s.splitn(6, '\x1f').collect();
            if v.viol.is_none() && !p[3].is_empty() {
                v.viol = Some((p[3].into(), format!("{}, thread {} edit {}: {}", EDIT_FIELDS[field], p[1], p[2], p[4])));
            }
        }
    }
    if v.viol.is_none() {
        v.viol = bad_end(&r);
    }
    let d = |i: usize| ctx.totals.stats[i] - before[i];
    v.nontrivial = d(st::PANICS) + d(st::NATURAL_PANICS) > 0;
    v
}
pub fn gen(_: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C07");
    c.set("field", r.us(5) as i64);
    let side = |r: &mut Rng| if r.chance(1, 12) { 1 + r.us(40) } else { 1 + r.us(5) };
    let rows = side(r);
    c.set("rows", rows as i64);
    c.set("cols", if r.chance(1, 4) { rows as i64 } else { side(r) as i64 });
    c.set("world", r.below(1 << 30) as i64);
    let n = if r.chance(2, 3) { 1 } else { 2 };
    c.set("threads", n as i64);
    let cells = rows * c.n("cols");
    let edits = 1 + r.us(14);
    let focus = if r.chance(1, 2) { Some(r.us(15)) } else { None };
    for _ in 0..edits {
        let kind = match focus {
            Some(k) if r.chance(1, 2) => k,
            _ => r.us(15),
        };
        let reach = if r.chance(1, 2) { cells } else { rows.max(c.n("cols")) };
        let cut = if r.chance(1, 2) { 1 + r.us(3 * reach + 2) } else { 0 };
        c.push("edit", vec![r.us(n) as i64, kind as i64, r.us(48) as i64, r.us(48) as i64, r.us(96) as i64, cut as i64, r.us(120) as i64]);
    }
    if n > 1 {
        schedule(r, &mut c, n, edits as u64 * 300);
    }
    c
}
