//! C17: calls made at odd moments of a thread's or process's life - while it unwinds, while the
//! values of an ending thread are being dropped, in a forked child of a process with other threads,
//! in a handler run at exit.
use crate::case::Case;
use crate::ctx::*;
use crate::engine::*;
use simops::AnyWorld;
use simrt::rng::Rng;
use simrt::sched;
use simrt::shm::{self, bump, st};
use simrt::sys;
use std::cell::RefCell;
use std::sync::Arc;

pub const MOMENTS: [&str; 7] = ["while the thread unwinds", "in the middle of another call, while the thread unwinds", "when the thread's values are dropped, the caller's having been the first", "when the thread's values are dropped, the caller's having been the last", "after the thread's values have been dropped", "in a forked child", "in an exit handler of a process"];

struct Late(Option<Box<dyn FnOnce() + Send>>);
impl Drop for Late {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            f()
        }
    }
}
thread_local! { static LATE: RefCell<Option<Late>> = const { RefCell::new(None) }; }

extern "C" {
    fn pthread_key_create(k: *mut u32, f: extern "C" fn(*mut u8)) -> i32;
    fn pthread_setspecific(k: u32, v: *const u8) -> i32;
}
static AT_EXIT: std::sync::Mutex<Option<Late>> = std::sync::Mutex::new(None);
extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
    fn exit(code: i32) -> !;
}
extern "C" fn at_exit() {
    sched::masked(|| {
        let late = AT_EXIT.lock().unwrap().take();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(late)));
        if r.is_err() {
            unsafe { sys::_exit(98) }
        }
    })
}
extern "C" fn last_act(p: *mut u8) {
    drop(unsafe { Box::from_raw(p as *mut Late) });
}
fn unwinding(late: Late) {
    bump(st::ODD_MOMENTS, 1);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let _late = late;
        std::panic::resume_unwind(Box::new(0u8));
    }));
}
fn in_thread(f: impl FnOnce() + Send + 'static) {
    bump(st::ODD_MOMENTS, 1);
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || sched::masked(f)).expect("spawn");
    sched::unmasked(|| h.join()).expect("join");
}

/// thread 0: calls before (and again after), thread 1: calls at the moment, thread 2: calls of
/// another thread that is under way.
pub fn run(ctx: &mut Ctx, case: &Case) -> Verdict {
    let mut s = parse(ctx, case);
    let moment = case.n("moment") % MOMENTS.len();
    while s.threads.len() < 3 {
        s.threads.push(vec![]);
    }
    if s.threads[1].is_empty() {
        return Verdict::discard();
    }
    s.cfg.threads = if moment == 5 { 2 } else { 1 };
    s.cfg.step_cap = s.steps * 40 + 1_000_000;
    let jitter = case.u("jitter");
    let early = case.p("early") != 0;
    let before = ctx.totals.stats[st::ODD_MOMENTS];
    let r = ctx.child(move || {
        simrt::alloc::arena(jitter);
        sched::setup(s.cfg.clone());
        let w = AnyWorld::new(s.field, s.size, s.wseed);
        let s = Arc::new(s);
        let log = sched::run(move |t| {
            let calls = {
                let (s, w) = (s.clone(), w.clone());
                move |list: usize, when: &str| {
                    for a in &s.threads[list] {
                        if let Act::Call(i) = a {
                            let c = &s.calls[*i];
                            exec(&w, c, &format!("{}: {}({},{},{})", when, c.op.name(), c.op.a, c.op.b, c.op.c));
                        }
                    }
                }
            };
            if t == 1 {
                return sched::masked(|| calls(2, "meanwhile"));
            }
            sched::masked(|| {
                let late = {
                    let calls = calls.clone();
                    Late(Some(Box::new(move || calls(1, MOMENTS[moment]))))
                };
                let c = calls.clone();
                match moment {
                    0 => {
                        calls(0, "before");
                        unwinding(late);
                    }
                    1 => {
                        // Inside the first callback of the first call made before.
                        let cell = std::rc::Rc::new(RefCell::new(Some(late)));
                        let inside = move |_: usize| {
                            if let Some(l) = cell.borrow_mut().take() {
                                unwinding(l);
                            }
                        };
                        if let Some(Act::Call(i)) = s.threads[0].first() {
                            let c = &s.calls[*i];
                            let plan = simrt::calls::Plan { nests: vec![(c.panic_at.max(1), 0)], ..Default::default() };
                            let o = w.exec(c.op, &plan, Some(std::rc::Rc::new(inside)), (0, 0));
                            report(&o, c, "around calls made while unwinding");
                        }
                    }
                    2 => in_thread(move || {
                        LATE.with(|l| *l.borrow_mut() = Some(late));
                        c(0, "before");
                    }),
                    3 => in_thread(move || {
                        c(0, "before");
                        LATE.with(|l| *l.borrow_mut() = Some(late));
                    }),
                    4 => in_thread(move || {
                        c(0, "before");
                        let mut k = 0;
                        unsafe {
                            assert!(pthread_key_create(&mut k, last_act) == 0);
                            pthread_setspecific(k, Box::into_raw(Box::new(late)) as *const u8);
                        }
                    }),
                    _ => {
                        // Exit handlers run in reverse order: before or after any of the library's own.
                        if moment == 6 && early {
                            unsafe { atexit(at_exit) };
                        }
                        calls(0, "before");
                        bump(st::ODD_MOMENTS, 1);
                        match unsafe { sys::fork() } {
                            0 => {
                                sched::alone();
                                unsafe { sys::alarm(20) };
                                if moment == 6 {
                                    *AT_EXIT.lock().unwrap() = Some(late);
                                    unsafe {
                                        if !early {
                                            atexit(at_exit);
                                        }
                                        exit(0)
                                    }
                                }
                                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(late)));
                                unsafe { sys::_exit(r.is_err() as i32 * 98) };
                            }
                            pid => {
                                std::mem::forget(late);
                                let mut status = 0;
                                while unsafe { sys::waitpid(pid, &mut status, 0) } != pid {}
                                if status != 0 {
                                    let how = match status {
                                        0x4c00 => "was blocked for good".to_string(),
                                        0x4d00 => "did not finish within its step budget".to_string(),
                                        s if s & 0x7f == 14 => "made no progress".to_string(),
                                        s => format!("died (wait status {:x})", s),
                                    };
                                    violation("forked-child", format!("a forked child making the calls{} {}", if moment == 6 { " as it exits" } else { "" }, how));
                                }
                            }
                        }
                    }
                }
                calls(0, "after");
            })
        });
        finish_log(log, log_hash());
    });
    let mut v = collect(&r);
    v.nontrivial = ctx.totals.stats[st::ODD_MOMENTS] > before;
    read_log(&mut v, &r.recs);
    let _ = shm::ready();
    v
}

pub fn gen(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C17");
    worlds(ctx, r, &mut c, 2);
    c.set("threads", 3);
    let moment = r.us(MOMENTS.len());
    c.set("moment", moment as i64);
    if moment == 6 {
        c.set("early", r.below(2) as i64);
    }
    random_env(r, &mut c, false);
    let world = c.u("world");
    let want = 1 + r.us(5);
    let p = palette(ctx, r, &c, world, want, 20_000, if moment == 1 { 1 } else { 0 });
    if p.ops.is_empty() {
        return c;
    }
    let mut total = 0;
    for list in 0..3 {
        let n = if list == 2 && moment != 5 { 0 } else if list == 1 { 1 + r.us(4) } else { r.us(4) };
        for _ in 0..n {
            let (op, b) = r.pick(&p.ops);
            let at = if r.chance(1, 6) || moment == 1 && list == 0 { crash_point(r, b.callbacks, &b.cb_sites) } else { 0 };
            c.push("call", call_item(list, false, *op, at));
            total += b.steps;
        }
    }
    if moment == 5 {
        for _ in 0..1 + r.us(4) {
            c.push("switch", vec![r.below(total + 1) as i64, r.us(2) as i64]);
        }
        if r.chance(1, 2) {
            c.set("hot_pct", *r.pick(&[12, 50, 95]));
            c.set("hot_seed", r.below(1 << 30) as i64);
        }
    }
    c
}
