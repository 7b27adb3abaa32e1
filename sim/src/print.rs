//! C08: renderings into failing sinks, with nested, concurrent and later renderings.
use crate::case::Case;
use crate::ctx::{bad_end, clip, Ctx, Verdict};
use crate::engine::{config, crash_point, finish_log, read_log, schedule};
use simops::print::{print, quote, Fault, Printed, Show};
use simops::AnyWorld;
use simrt::calls::{Plan, Status};
use simrt::rng::{hash128, Rng};
use simrt::sched::{self, Config};
use simrt::shm::{self, st};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

const PLAIN: Fault = Fault { mode: 0, n: 0, count: 0, io: 0, eintr: 0, errno: 0 };
#[derive(Clone, Debug)]
pub struct Full {
    status: Status,
    msg: String,
    text: Vec<u8>,
    callbacks: u64,
}
type Key = (usize, u64, u64, Show);
static CACHE: Mutex<Option<HashMap<Key, Option<Arc<Full>>>>> = Mutex::new(None);

/// The full rendering, from a pristine process.
fn full(ctx: &mut Ctx, field: usize, size: u64, wseed: u64, s: Show) -> Option<Arc<Full>> {
    let key = (field, size, wseed, s);
    if let Some(x) = CACHE.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
        return x.clone();
    }
    let keep = ctx.totals.stats;
    ctx.totals.baselines += 1;
    let r = ctx.child(|| {
        simrt::alloc::arena(0);
        sched::setup(Config { threads: 1, step_cap: 300_000, entropy: 1, ..Config::default() });
        sched::run(move |_| {
            sched::masked(|| {
                let w = AnyWorld::new(field, size, wseed);
                let p = print(&w, s, PLAIN, &Plan::default(), None);
                shm::emit(format!("{}\x1f{}\x1f{}", p.call.status as u64, p.call.callbacks, p.call.msg).as_bytes());
                shm::emit(&p.sink.got);
            })
        });
    });
    ctx.totals.stats = keep;
    let x = (|| {
        let s = String::from_utf8_lossy(r.recs.first()?).into_owned();
        let p: Vec<&str> = s.splitn(3, '\x1f').collect();
        Some(Arc::new(Full {
            status: if p[0] == "0" { Status::Done } else { Status::Panicked },
            callbacks: p[1].parse().ok()?,
            msg: p[2].into(),
            text: r.recs.get(1)?.clone(),
        }))
    })();
    let mut g = CACHE.lock().unwrap();
    let c = g.as_mut().unwrap();
    if c.len() > 50_000 {
        c.clear();
    }
    c.insert(key, x.clone());
    x
}
#[derive(Clone)]
struct Act {
    show: Show,
    fault: Fault,
    panic_at: u64,
    full: Arc<Full>,
    nests: Vec<(u64, Show, Arc<Full>)>,
}
fn judge(p: &Printed, f: &Full) -> Option<(&'static str, String)> {
    let got = &p.sink.got;
    match p.call.status {
        Status::Injected => None,
        Status::Panicked => {
            if f.status == Status::Panicked && p.call.msg == f.msg {
                None
            } else {
                Some(("panics", format!("panicked: {}", p.call.msg)))
            }
        }
        Status::Done => {
            let ok = p.call.value == Some(true);
            if ok && p.sink.reported > 0 {
                return Some(("error-swallowed", format!("the sink reported an error and the rendering claims success, having delivered {}", quote(got))));
            }
            if !ok && p.sink.reported == 0 {
                return Some(("spurious-error", "the sink accepted everything and the rendering reports an error".into()));
            }
            if f.status != Status::Done && ok {
                return Some(("no-panic", format!("alone it panics: {}", f.msg)));
            }
            if ok && *got != f.text {
                return Some(("text-differs", format!("delivered {}, full rendering {}", quote(got), quote(&f.text))));
            }
            if !f.text.starts_with(got) {
                return Some(("garbled", format!("the sink failed and got {}, no prefix of {}", quote(got), quote(&f.text))));
            }
            None
        }
    }
}
const NEST0: usize = 11;
fn parse(ctx: &mut Ctx, c: &Case) -> Vec<Vec<Act>> {
    let n = c.n("threads").clamp(1, 3);
    let (field, size, wseed) = (c.n("field") % 5, c.u("size").min(4), c.u("world"));
    let mut t = vec![vec![]; n];
    for i in c.of("show") {
        let show = Show { kind: i.u(1), idx: i.u(2), spec: i.u(3) }.norm();
        let Some(b) = full(ctx, field, size, wseed, show) else { continue };
        let fault = Fault { mode: i.g(4).max(0) as u64 % 3, n: i.g(5).max(0) as u64, count: i.g(6).max(0) as u64, io: i.g(7).max(0) as u64, eintr: i.g(8).max(0) as u64, errno: i.g(9).max(0) as u64 };
        let mut nests = vec![];
        let mut j = NEST0;
        while j + 3 < i.v.len() {
            let s = Show { kind: i.u(j + 1), idx: i.u(j + 2), spec: i.u(j + 3) }.norm();
            if let Some(b) = full(ctx, field, size, wseed, s) {
                nests.push((i.g(j).max(1) as u64, s, b));
            }
            j += 4;
        }
        t[i.u(0) % n].push(Act { show, fault, panic_at: i.g(10).max(0) as u64, full: b, nests });
    }
    t
}
pub fn run(ctx: &mut Ctx, case: &Case) -> Verdict {
    let threads = parse(ctx, case);
    if threads.iter().all(|t| t.is_empty()) {
        return Verdict::discard();
    }
    let n = threads.len();
    let (field, size, wseed) = (case.n("field") % 5, case.u("size").min(4), case.u("world"));
    let c2 = case.clone();
    let before = ctx.totals.stats;
    let r = ctx.child(move || {
        simrt::alloc::arena(c2.u("jitter"));
        sched::setup(config(&c2, n, 20_000_000));
        let w = AnyWorld::new(field, size, wseed);
        let threads = Arc::new(threads);
        let log = sched::run(move |t| {
            sched::masked(|| {
                for (k, a) in threads[t].iter().enumerate() {
                    let mut at: Vec<(u64, usize)> = a.nests.iter().enumerate().map(|(i, x)| (x.0, i)).collect();
                    at.sort();
                    let (w2, a2) = (w.clone(), a.clone());
                    let nest: Rc<dyn Fn(usize)> = Rc::new(move |i| {
                        let (at, s, f) = &a2.nests[i];
                        let p = print(&w2, *s, PLAIN, &Plan::default(), None);
                        if let Some((c, m)) = judge(&p, f) {
                            shm::emit(format!("V\x1fnested-{}\x1fthread {} rendering {} ({}): {} nested at callback {}: {}", c, t, k, a2.show.name(), s.name(), at, clip(&m)).as_bytes());
                        }
                    });
                    let plan = Plan { panic_at: a.panic_at, nests: at, ..Plan::default() };
                    let p = print(&w, a.show, a.fault, &plan, Some(nest));
                    if let Some((c, m)) = judge(&p, &a.full) {
                        shm::emit(format!("V\x1f{}\x1fthread {} rendering {}: {} into {:?}: {}", c, t, k, a.show.name(), a.fault, clip(&m)).as_bytes());
                    }
                    // The same value again, into a good sink.
                    let again = print(&w, a.show, PLAIN, &Plan::default(), None);
                    if let Some((c, m)) = judge(&again, &a.full) {
                        shm::emit(format!("V\x1flater-{}\x1fthread {} rendering {}: {} once more after {:?}: {}", c, t, k, a.show.name(), a.fault, clip(&m)).as_bytes());
                    }
                    shm::emit(format!("P\x1f{}\x1f{}\x1f{:?}\x1f{}\x1f{}", t, k, p.call.status, p.sink.reported, quote(&p.sink.got)).as_bytes());
                }
            })
        });
        finish_log(log, 0);
    });
    let mut v = Verdict::ok(0);
    read_log(&mut v, &r.recs);
    for rec in &r.recs {
        if rec.starts_with(b"P\x1f") {
            v.log = v.log.rotate_left(5) ^ hash128(rec).0;
        }
        if rec.starts_with(b"V\x1f") && v.viol.is_none() {
            let s = String::from_utf8_lossy(rec).into_owned();
            let p: Vec<&str> = s.splitn(3, '\x1f').collect();
            v.viol = Some((p[1].into(), p[2].into()));
        }
    }
    if v.viol.is_none() {
        v.viol = bad_end(&r);
    }
    let d = |i: usize| ctx.totals.stats[i] - before[i];
    v.nontrivial = d(st::SINK_ERRORS) + d(st::PANICS) + d(st::SHORT_WRITES) + d(st::EINTRS) + d(st::PREEMPTS) > 0;
    v
}
fn random_show(r: &mut Rng) -> Show {
    // The types with several pieces of text most often.
    let kind = *r.pick(&[0, 1, 2, 2, 3, 3, 4, 4, 4, 5, 5, 6]);
    let spec = if r.chance(1, 2) { 0 } else { r.us(14) };
    Show { kind, idx: r.us(12), spec }.norm()
}
pub fn gen(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C08");
    let field = *r.pick(&[0, 1, 2, 2, 3, 3, 4]);
    c.set("field", field);
    c.set("size", r.below(4) as i64);
    c.set("world", r.below(200) as i64);
    let n = if r.chance(1, 2) { 1 } else { 2 + r.us(2) };
    c.set("threads", n as i64);
    if r.chance(1, 4) {
        c.set("entropy", (2 + r.below(1 << 40)) as i64);
    }
    let k = 1 + r.us(5);
    let mut steps = 0;
    let some: Vec<Show> = (0..1 + r.us(3)).map(|_| random_show(r)).collect();
    for _ in 0..k {
        let s = if r.chance(1, 2) { *r.pick(&some) } else { random_show(r) };
        let Some(b) = full(ctx, c.n("field"), c.u("size"), c.u("world"), s) else { continue };
        let mode = r.below(3);
        let len = b.text.len() as u64;
        let at = match mode {
            1 => 1 + r.below(b.callbacks + 1),
            _ => r.below(len + 1),
        };
        let io = if r.chance(1, 3) { *r.pick(&[1, 2, 3, 7, 1000]) } else { 0 };
        let at = if io > 0 && mode == 1 { 1 + r.below(len / io + 2) } else { at };
        let eintr = if io > 0 && r.chance(1, 2) { 1 + r.below(4) } else { 0 };
        let count = if r.chance(1, 2) { 0 } else { 1 + r.below(3) };
        let cut = if r.chance(1, 3) { crash_point(r, b.callbacks, &[]) } else { 0 };
        let mut v = vec![r.us(n) as i64, s.kind as i64, s.idx as i64, s.spec as i64, mode as i64, at as i64, count as i64, io as i64, eintr as i64, r.below(4) as i64, cut as i64];
        if r.chance(1, 4) {
            for _ in 0..1 + r.us(3) {
                let s = if r.chance(1, 2) { s } else { random_show(r) };
                v.extend([1 + r.below(b.callbacks.max(1)) as i64, s.kind as i64, s.idx as i64, s.spec as i64]);
            }
        }
        steps += 40 * b.callbacks + len * 4;
        c.push("show", v);
    }
    if n > 1 {
        schedule(r, &mut c, n, 2 * steps);
    }
    c
}
