//! C33: what calls leave behind in the process and the thread that made them.
use crate::case::Case;
use crate::ctx::*;
use crate::engine::*;
use simops::AnyWorld;
use simrt::calls::Plan;
use simrt::process::*;
use simrt::rng::Rng;
use simrt::sched;
use simrt::shm::{self, bump, st};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::Arc;

struct Found(UnsafeCell<Option<(Facts, Facts)>>);
unsafe impl Sync for Found {}
/// The process before the first call: as a whole, and what it has.
static FOUND: Found = Found(UnsafeCell::new(None));
static UNDER_WAY: AtomicI64 = AtomicI64::new(0);
static TOLD: AtomicI64 = AtomicI64::new(0);

fn tell(class: &str, what: &str, when: &str) {
    if TOLD.swap(1, SeqCst) == 0 {
        violation(class, format!("{}: changed {}", what, when));
    }
}
fn during() -> bool {
    if let Some((whole, _)) = unsafe { &*FOUND.0.get() } {
        if let Some(x) = difference(whole, &self::whole()) {
            tell("process-changed-midway", x, "in the middle of a call");
        }
    }
    true
}
fn after(label: &str, me: &Facts) {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let Some((whole, has)) = (unsafe { &*FOUND.0.get() }) else { return };
    bump(st::AUDITS, 1);
    if let Some(x) = difference(whole, &self::whole()) {
        tell("process-changed", x, label);
    }
    if UNDER_WAY.load(SeqCst) == 0 {
        if let Some(x) = difference(has, &belongings()) {
            tell("left-behind", x, label);
        }
    }
    if let Some(x) = difference(me, &thread()) {
        tell("thread-changed", x, label);
    }
}

pub fn run(ctx: &mut Ctx, case: &Case) -> Verdict {
    let mut s = parse(ctx, case);
    if s.calls.is_empty() {
        return Verdict::discard();
    }
    s.cfg.audit = Some(during);
    let looks: Vec<(usize, u64)> = case.of("look").map(|i| (i.u(0) % s.calls.len(), i.g(1).max(1) as u64)).collect();
    let before = ctx.totals.stats[st::AUDITS];
    let r = ctx.child(move || {
        simrt::alloc::arena(0);
        own_streams();
        sched::setup(s.cfg.clone());
        let w = AnyWorld::new(s.field, s.size, s.wseed);
        let (s, looks) = (Arc::new(s), Arc::new(looks));
        let log = sched::run(move |t| {
            sched::masked(|| {
                // Starting threads is the simulator's doing; from here on it is the library's.
                if unsafe { &*FOUND.0.get() }.is_none() {
                    unsafe { *FOUND.0.get() = Some((whole(), belongings())) };
                }
                let me = Arc::new(thread());
                for (k, a) in s.threads[t].iter().enumerate() {
                    let Act::Call(i) = a else { continue };
                    let c = &s.calls[*i];
                    let name = format!("thread {} call {} {}({},{},{})", t, k, c.op.name(), c.op.a, c.op.b, c.op.c);
                    let mut nests: Vec<(u64, usize)> = looks.iter().filter(|x| x.0 == *i).map(|x| (x.1, 0)).collect();
                    nests.sort();
                    let plan = Plan { panic_at: c.panic_at, nests, kind: c.how.kind, ..Plan::default() };
                    let look = {
                        let (me, name) = (me.clone(), name.clone());
                        move |_: usize| {
                            bump(st::AUDITS, 1);
                            if let Some(x) = difference(&me, &thread()) {
                                tell("thread-changed-midway", x, &format!("seen by user-supplied code called by {}", name));
                            }
                            during();
                        }
                    };
                    UNDER_WAY.fetch_add(1, SeqCst);
                    let o = w.exec(c.op, &plan, Some(std::rc::Rc::new(look)), (0, 0));
                    UNDER_WAY.fetch_sub(1, SeqCst);
                    report(&o, c, &name);
                    after(&format!("after {}", name), &me);
                }
            })
        });
        finish_log(log, log_hash());
    });
    let mut v = collect(&r);
    v.nontrivial = ctx.totals.stats[st::AUDITS] > before;
    read_log(&mut v, &r.recs);
    let _ = shm::ready();
    v
}

pub fn gen(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C33");
    worlds(ctx, r, &mut c, 2);
    let n = 1 + r.us(2);
    c.set("threads", n as i64);
    c.set("kind", r.below(4) as i64);
    let world = c.u("world");
    let want = 2 + r.us(6);
    let p = palette(ctx, r, &c, world, want, 30_000, 0);
    if p.ops.is_empty() {
        return c;
    }
    let mut total = 0;
    for k in 0..1 + r.us(8) {
        let (op, b) = r.pick(&p.ops);
        total += b.steps;
        let at = if r.chance(2, 5) { crash_point(r, b.callbacks, &b.cb_sites) } else { 0 };
        c.push("call", call_item(r.us(n), false, *op, at));
        if b.callbacks > 0 {
            for _ in 0..r.us(4) {
                c.push("look", vec![k as i64, crash_point(r, b.callbacks, &b.cb_sites).max(1) as i64]);
            }
        }
    }
    for _ in 0..2 + r.us(12) {
        c.push("switch", vec![r.below(total + 1) as i64, r.us(n) as i64]);
    }
    c
}
