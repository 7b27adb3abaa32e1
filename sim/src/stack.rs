//! C19: calls on very large operands, made by a thread with little stack.
use crate::case::Case;
use crate::ctx::*;
use crate::engine::*;
use simops::catalogue::NAMES;
use simops::world::LARGE;
use simops::AnyWorld;
use simrt::rng::Rng;
use simrt::sched;
use simrt::shm::{self, End};
use std::sync::Arc;

pub const STACK: usize = 32 << 10;

pub fn run(ctx: &mut Ctx, case: &Case) -> Verdict {
    let mut s = parse(ctx, case);
    if s.calls.is_empty() {
        return Verdict::discard();
    }
    s.cfg.threads = 1;
    s.cfg.step_cap = s.steps * 4 + 1_000_000;
    let stack = if case.u("stack") == 0 { STACK } else { case.n("stack") };
    let s = Arc::new(s);
    let mut out = Verdict::ok(0);
    for i in 0..s.calls.len() {
        let s2 = s.clone();
        let r = ctx.child(move || {
            let s = s2;
            simrt::alloc::arena(0);
            sched::setup(s.cfg.clone());
            let w = AnyWorld::new(s.field, s.size, s.wseed);
            let log = sched::run(move |_| {
                sched::masked(|| {
                    let (s, w) = (s.clone(), w.clone());
                    let f = move || {
                        let c = &s.calls[i];
                        exec(&w, c, &format!("on a small stack: {}({},{},{})", c.op.name(), c.op.a, c.op.b, c.op.c));
                    };
                    let h = std::thread::Builder::new().stack_size(stack).spawn(move || sched::masked(f)).expect("spawn");
                    sched::unmasked(|| h.join()).expect("join");
                })
            });
            finish_log(log, log_hash());
        });
        let mut v = collect(&r);
        if matches!(r.end, End::Signal(6 | 11)) {
            let c = &s.calls[i];
            v.viol = Some(("stack-exhausted".into(), format!("{}({},{},{}) needs more than {} bytes of stack", c.op.name(), c.op.a, c.op.b, c.op.c, stack)));
        }
        read_log(&mut v, &r.recs);
        out.log = simrt::rng::mix(out.log ^ v.log);
        if v.viol.is_some() {
            out.viol = v.viol;
            break;
        }
    }
    let _ = shm::ready();
    out
}

pub fn gen(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C19");
    c.set("threads", 1);
    c.set("field", r.us(5) as i64);
    c.set("size", (LARGE + r.below(8)) as i64);
    let world = r.below(1 << 30);
    c.set("world", world as i64);
    let want = 1 + r.us(4);
    // Kinds of calls whose operands can be large; fewer of those that take quadratic time at least.
    let small = |n: &str| ["float", "prim.", "scal."].iter().any(|x| n.starts_with(x)) || (n.starts_with("int.") || n.starts_with("rat.")) && n != "rat.sum";
    let focus: Vec<usize> = (0..NAMES.len())
        .filter(|k| !small(NAMES[*k]))
        .flat_map(|k| {
            let slow = ["elim.", "cone.", "comp.", "mat.mul", "poly.mul", "poly.square", "poly.term"].iter().any(|x| NAMES[k].starts_with(x));
            vec![k; if slow { 2 } else { 3 }]
        })
        .collect();
    let mut n = 0;
    for _ in 0..40 {
        let op = random_op(r, &focus).norm();
        let Some(b) = ctx.base(c.n("field"), c.u("size"), world, op) else { continue };
        // Operands of which little is looked at are no larger than any other.
        if b.steps < 2_000 && !r.chance(1, 8) {
            continue;
        }
        let at = if r.chance(1, 4) { crash_point(r, b.callbacks, &b.cb_sites) } else { 0 };
        c.push("call", call_item(0, false, op, at));
        n += 1;
        if n >= want {
            break;
        }
    }
    c
}
