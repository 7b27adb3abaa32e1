//! C15: enumerations stepped by several threads, interleaved with other calls, some abandoned.
use crate::case::Case;
use crate::ctx::{bad_end, clip, Ctx, Verdict};
use crate::engine::{config, crash_point, finish_log, random_focus, random_op, read_log, schedule};
use simops::enums::{endless, expected, plausible, start, Live, Rest, Spec, KINDS, PART};
use simops::{AnyWorld, Op};
use simrt::calls::{call, Plan, Status};
use simrt::rng::{hash128, mix, Rng};
use simrt::sched::{self, Config};
use simrt::shm::{self, bump, st};
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

type Key = (usize, u64, u64, Spec);
type Seq = Result<Arc<Vec<String>>, String>;
static CACHE: Mutex<Option<HashMap<Key, Seq>>> = Mutex::new(None);

/// What the enumeration delivers, in order, in a pristine process; checked against the model.
fn sequence(ctx: &mut Ctx, field: usize, size: u64, wseed: u64, s: Spec) -> Seq {
    let key = (field, size, wseed, s);
    if let Some(x) = CACHE.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
        return x.clone();
    }
    let keep = ctx.totals.stats;
    ctx.totals.baselines += 1;
    let r = ctx.child(|| {
        simrt::alloc::arena(0);
        sched::setup(Config { threads: 1, step_cap: 3_000_000, entropy: 1, ..Config::default() });
        sched::run(move |_| {
            sched::masked(|| {
                let w = AnyWorld::new(field, size, wseed);
                // Building the model must not call the library first.
                let mut l = None;
                let mut got = vec![];
                let mut over = false;
                let o = call(&Plan::default(), None, || {
                    let l = l.insert(start(&w, &s));
                    while let Some(x) = l.it.as_mut().unwrap().next() {
                        got.push(x);
                        if got.len() >= if endless(&s) { PART } else { 5000 } {
                            over = true;
                            break;
                        }
                    }
                });
                if let Some(l) = &mut l {
                    l.drop_it();
                }
                let (want, ordered) = if endless(&s) { (vec![], false) } else { expected(&w, &s) };
                let distinct = || {
                    let mut a = got.clone();
                    a.sort();
                    a.dedup();
                    a.len() == got.len()
                };
                let msg = if endless(&s) && o.status == Status::Done {
                    if got.len() != PART || !distinct() || !got.iter().all(|x| plausible(&w, &s, x)) {
                        format!("delivers {} items, not {} different ones of those due: {}", got.len(), PART, got.join(" "))
                    } else {
                        String::new()
                    }
                } else if o.status == Status::Panicked {
                    format!("panicked: {}", o.msg)
                } else if over {
                    "does not end".into()
                } else if got.len() != want.len() {
                    format!("delivers {} items, not {}: {}", got.len(), want.len(), got.join(" "))
                } else if ordered && got != want {
                    format!("delivers {}, should be {}", got.join(" "), want.join(" "))
                } else {
                    let (mut a, mut b) = (got.clone(), want.clone());
                    a.sort();
                    b.sort();
                    if a != b {
                        format!("misses or repeats items: {}", got.join(" "))
                    } else {
                        String::new()
                    }
                };
                shm::emit(format!("{}\x1f{}", msg, got.join("\x1e")).as_bytes());
            })
        });
    });
    ctx.totals.stats = keep;
    let x: Seq = match (bad_end(&r), r.recs.last()) {
        (None, Some(rec)) => {
            let s = String::from_utf8_lossy(rec).into_owned();
            let (m, g) = s.split_once('\x1f').unwrap();
            if m.is_empty() {
                Ok(Arc::new(if g.is_empty() { vec![] } else { g.split('\x1e').map(|x| x.to_string()).collect() }))
            } else {
                Err(m.to_string())
            }
        }
        (Some((_, m)), _) => Err(m),
        _ => Err("no result".into()),
    };
    let mut g = CACHE.lock().unwrap();
    let c = g.as_mut().unwrap();
    if c.len() > 50_000 {
        c.clear();
    }
    c.insert(key, x.clone());
    x
}
/// One enumeration being stepped: how far it got.
struct Slot {
    busy: AtomicBool,
    live: UnsafeCell<Option<(Live, usize)>>,
}
unsafe impl Sync for Slot {}
unsafe impl Send for Slot {}
#[derive(Clone, Debug)]
enum Act {
    Step { e: usize, how: usize, k: usize },
    Call { op: Op, panic_at: u64 },
}
fn parse(c: &Case) -> (Vec<Spec>, Vec<Vec<Act>>) {
    let n = c.n("threads").clamp(1, 4);
    let specs: Vec<Spec> = c.of("enum").map(|i| Spec { kind: i.u(0) % KINDS.len(), a: i.u(1), b: i.u(2), c: i.u(3) }).collect();
    let mut t = vec![vec![]; n];
    for i in &c.items {
        match i.tag.as_str() {
            "step" if !specs.is_empty() => t[i.u(0) % n].push(Act::Step { e: i.u(1) % specs.len(), how: i.u(2) % 8, k: i.u(3) }),
            "call" => t[i.u(0) % n].push(Act::Call { op: Op { k: i.u(1), a: i.u(2), b: i.u(3), c: i.u(4) }.norm(), panic_at: i.g(5).max(0) as u64 }),
            _ => {}
        }
    }
    (specs, t)
}
/// Steps; returns a complaint.
fn step(l: &mut Live, pos: &mut usize, want: &[String], endless: bool, how: usize, k: usize) -> Option<String> {
    // One that is too long to be followed to its end is abandoned instead.
    let how = if endless && how == 5 { 6 } else { how };
    let left = want.len().saturating_sub(*pos);
    let see = |at: usize, got: Option<&String>| -> Option<String> {
        match (got, want.get(at)) {
            (None, None) => None,
            (Some(g), Some(w)) if g == w => None,
            (g, w) => Some(format!("item {} is {}, alone it is {}", at, g.map_or("missing".into(), |x| clip(x)), w.map_or("absent".into(), |x| clip(x)))),
        }
    };
    let o = call(&Plan::default(), None, || {
        let it = l.it.as_mut().unwrap();
        match how {
            0 | 1 => {
                let x = it.next();
                let r = see(*pos, x.as_ref());
                *pos += 1;
                r
            }
            2 => {
                let k = [0, 1, 2, 3, left.saturating_sub(1), left, left + 64, usize::MAX][k % if endless { 4 } else { 8 }];
                let x = it.nth(k);
                let r = see(pos.saturating_add(k), x.as_ref());
                *pos = pos.saturating_add(k).saturating_add(1).min((want.len() + 1).max(*pos + 1));
                r
            }
            7 => {
                // Every second, third or fourth item, stopped early.
                let (by, m) = (2 + k % 3, k / 3 % 4);
                let v = it.every(by, m);
                let shown = ((left + by - 1) / by).min(m);
                if v.len() != shown {
                    return Some(format!("{} items in steps of {} where {} were due", v.len(), by, shown));
                }
                let p = *pos;
                *pos += if m == 0 { 0 } else { 1 + (m - 1) * by };
                *pos = (*pos).min((want.len() + 1).max(p));
                v.iter().enumerate().find_map(|(i, x)| see(p + i * by, Some(x)))
            }
            3 => {
                let k = (k % 6).min(left);
                let v = it.take(k);
                if v.len() != k {
                    return Some(format!("{} items taken where {} were left", v.len(), left));
                }
                for x in v {
                    if let Some(r) = see(*pos, Some(&x)) {
                        return Some(r);
                    }
                    *pos += 1;
                }
                None
            }
            4 => {
                let (lo, hi) = it.hint();
                if endless && hi.is_some() {
                    Some(format!("claims {:?} items are left where more are than can be counted", hi))
                } else if !endless && (lo > left || hi.map_or(false, |h| h < left)) {
                    Some(format!("claims between {} and {:?} items are left where {} are", lo, hi, left))
                } else {
                    None
                }
            }
            5 => {
                let r = l.it.take().unwrap().rest(k);
                let p = *pos;
                *pos = usize::MAX;
                match r {
                    Rest::Items(v) => {
                        if v.len() != left {
                            return Some(format!("delivers {} more items where {} are left", v.len(), left));
                        }
                        v.iter().enumerate().find_map(|(i, x)| see(p + i, Some(x)))
                    }
                    Rest::Count(n) if n != left => Some(format!("counts {} items where {} are left", n, left)),
                    Rest::Last(x) if left > 0 => see(want.len() - 1, x.as_ref()),
                    Rest::Last(Some(x)) => Some(format!("delivers {} where nothing is left", x)),
                    _ => None,
                }
            }
            _ => {
                bump(st::ABANDONED, 1);
                l.drop_it();
                *pos = usize::MAX;
                None
            }
        }
    });
    bump(st::ENUM_STEPS, 1);
    match o.status {
        Status::Done => o.value.unwrap(),
        _ => Some(format!("panicked: {}", o.msg)),
    }
}
pub fn run(ctx: &mut Ctx, case: &Case) -> Verdict {
    let (specs, threads) = parse(case);
    let n = threads.len();
    let (field, size, wseed) = (case.n("field") % 5, case.u("size").min(4), case.u("world"));
    let mut want = vec![];
    for s in &specs {
        match sequence(ctx, field, size, wseed, *s) {
            Ok(w) => want.push(w),
            Err(m) => return Verdict::bad("wrong-items", format!("{} {:?} alone {}", KINDS[s.kind], s, clip(&m))),
        }
    }
    let mut steps = 1_000_000;
    for a in threads.iter().flatten() {
        match a {
            Act::Call { op, .. } => match ctx.base(field, size, wseed, *op) {
                Some(b) => steps += b.steps * 4,
                None => return Verdict::discard(),
            },
            Act::Step { e, .. } => steps += (want[*e].len() as u64 + 65) * 2000,
        }
    }
    let c2 = case.clone();
    let before = ctx.totals.stats;
    let r = ctx.child(move || {
        simrt::alloc::arena(c2.u("jitter"));
        sched::setup(config(&c2, n, steps));
        let w = AnyWorld::new(field, size, wseed);
        let slots: Arc<Vec<Slot>> = Arc::new(specs.iter().map(|_| Slot { busy: AtomicBool::new(false), live: UnsafeCell::new(None) }).collect());
        let (threads, want, specs) = (Arc::new(threads), Arc::new(want), Arc::new(specs));
        let log = sched::run(move |t| {
            sched::masked(|| {
                for (k, a) in threads[t].iter().enumerate() {
                    match a {
                        Act::Call { op, panic_at } => {
                            w.exec(*op, &Plan { panic_at: *panic_at, ..Plan::default() }, None, (0, 0));
                        }
                        Act::Step { e, how, k: arg } => {
                            let s = &slots[*e];
                            if s.busy.swap(true, SeqCst) {
                                continue;
                            }
                            let live = unsafe { &mut *s.live.get() };
                            // An abandoned enumeration, or an exhausted one that was asked once more, is started afresh.
                            let long = endless(&specs[*e]);
                            let over = if long { PART - 60 } else { want[*e].len() + 1 };
                            if live.as_ref().map_or(true, |l| l.1 > over) {
                                *live = None;
                                let mut l = None;
                                call(&Plan::default(), None, || l = Some(start(&w, &specs[*e])));
                                *live = l.map(|l| (l, 0));
                            }
                            let Some((l, pos)) = live.as_mut() else {
                                shm::emit(format!("V\x1fpanics\x1fthread {} step {}: {} could not be started", t, k, KINDS[specs[*e].kind]).as_bytes());
                                s.busy.store(false, SeqCst);
                                continue;
                            };
                            let at = *pos;
                            if let Some(m) = step(l, pos, &want[*e], long, *how, *arg) {
                                shm::emit(format!("V\x1fwrong-item\x1fthread {} step {}: {} {:?} at {}: {}", t, k, KINDS[specs[*e].kind], specs[*e], at, m).as_bytes());
                                l.drop_it();
                                *pos = usize::MAX;
                            }
                            shm::emit(format!("S\x1f{}\x1f{}\x1f{}", t, k, *pos).as_bytes());
                            s.busy.store(false, SeqCst);
                        }
                    }
                }
            })
        });
        finish_log(log, 0);
    });
    let mut v = Verdict::ok(0);
    read_log(&mut v, &r.recs);
    let mut steps = 0;
    for rec in &r.recs {
        if rec.starts_with(b"S\x1f") {
            steps += 1;
            v.log = mix(v.log ^ hash128(rec).0);
        }
        if rec.starts_with(b"V\x1f") && v.viol.is_none() {
            let s = String::from_utf8_lossy(rec).into_owned();
            let p: Vec<&str> = s.splitn(3, '\x1f').collect();
            v.viol = Some((p[1].into(), p[2].into()));
        }
    }
    if v.viol.is_none() {
        v.viol = bad_end(&r);
    }
    let d = |i: usize| ctx.totals.stats[i] - before[i];
    v.nontrivial = steps > 2 && (d(st::PREEMPTS) > 0 || d(st::ABANDONED) > 0 || case.of("enum").count() > 1);
    v
}
pub fn gen(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C15");
    c.set("field", r.us(5) as i64);
    c.set("size", r.below(3) as i64);
    c.set("world", r.below(100) as i64);
    let n = if r.chance(1, 3) { 1 } else { 2 + r.us(3) };
    c.set("threads", n as i64);
    if r.chance(1, 3) {
        c.set("entropy", (2 + r.below(1 << 40)) as i64);
    }
    if r.chance(1, 3) {
        c.set("jitter", r.below(1 << 30) as i64);
    }
    let ne = 1 + r.us(4);
    let same = r.chance(1, 4);
    for e in 0..ne {
        let kind = if r.chance(1, 3) { 0 } else { r.us(12) };
        let mut v = vec![kind as i64, r.us(12) as i64, r.us(12) as i64, r.us(12) as i64];
        // Several enumerations of one thing.
        if same && e > 0 {
            v = c.items[0].v.clone();
        }
        c.push("enum", v);
    }
    let focus = random_focus(r);
    let mut steps = 0;
    for _ in 0..4 + r.us(40) {
        let t = r.us(n) as i64;
        if r.chance(1, 8) {
            let op = random_op(r, &focus).norm();
            if let Some(b) = ctx.base(c.n("field"), c.u("size"), c.u("world"), op) {
                if b.steps < 20_000 {
                    let cut = if r.chance(1, 3) { crash_point(r, b.callbacks, &b.cb_sites) } else { 0 };
                    steps += b.steps;
                    c.push("call", vec![t, op.k as i64, op.a as i64, op.b as i64, op.c as i64, cut as i64]);
                }
            }
        } else {
            let how = *r.pick(&[0, 0, 0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7]);
            steps += 60;
            c.push("step", vec![t, r.us(ne) as i64, how, r.us(12) as i64]);
        }
    }
    if n > 1 {
        schedule(r, &mut c, n, steps);
    }
    c
}
