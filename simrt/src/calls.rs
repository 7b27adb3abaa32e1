//! Per-call context: the callbacks through which a running library call re-enters code the
//! simulator owns, and the faults planned for it.
use crate::rng::mix;
use crate::sched;
use crate::shm::{bump, st};
use std::cell::{Cell, RefCell};
use std::mem::ManuallyDrop;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Payload of an injected panic: which one it is.
pub struct Injected(u64);

#[derive(Clone, Default, Debug)]
pub struct Plan {
    /// Callback at which the call is unwound (1 = the first; 0 = never).
    pub panic_at: u64,
    /// (callback, index passed to the nested-call function), ascending.
    pub nests: Vec<(u64, usize)>,
    /// Do all callbacks from that one on panic?
    pub persist: bool,
    /// Callbacks that answer wrongly: the first, how many, and what their answers are drawn from.
    pub lies: (u64, u64, u64),
    /// Callback from which on a call that goes by wrong answers is cut short (0 = never).
    pub budget: u64,
    /// Manner of panicking: 0 quietly; otherwise through the panic hook, 1 with a number, 2 with a
    /// message, 3 with a fixed message.
    pub kind: u64,
}
/// How often the simulator's panic hook has run.
pub static HOOKED: AtomicU64 = AtomicU64::new(0);
static SERIAL: AtomicU64 = AtomicU64::new(0);
const FIXED: &str = "user-supplied code failed";
fn message(serial: u64) -> String {
    format!("user-supplied code failed ({})", serial)
}

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static PANIC_AT: Cell<u64> = const { Cell::new(0) };
    static NEXT_NEST: Cell<u64> = const { Cell::new(0) };
    // Never dropped, so that calls can still be made while the thread's other values are dropped.
    static NESTS: ManuallyDrop<RefCell<Vec<(u64, usize)>>> = const { ManuallyDrop::new(RefCell::new(Vec::new())) };
    static NEST_FN: ManuallyDrop<RefCell<Option<std::rc::Rc<dyn Fn(usize)>>>> = const { ManuallyDrop::new(RefCell::new(None)) };
    static KIND: Cell<u64> = const { Cell::new(0) };
    static PERSIST: Cell<bool> = const { Cell::new(false) };
    /// Panics raised in this call, and which one was first.
    static RAISED: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    static LIES: Cell<(u64, u64, u64)> = const { Cell::new((0, 0, 0)) };
    static BUDGET: Cell<u64> = const { Cell::new(0) };
    /// Wrong answers given in this call.
    static LIED: Cell<u64> = const { Cell::new(0) };
    static PIVOTS: Cell<Option<(u64, u64)>> = const { Cell::new(None) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Done,
    Injected,
    Panicked,
}
pub struct CallOut<T> {
    pub status: Status,
    pub value: Option<T>,
    pub msg: String,
    pub callbacks: u64,
    /// Panics raised by callbacks during the call.
    pub raised: u64,
    /// Runs of the panic hook during the call.
    pub hooked: u64,
    /// Wrong answers given by callbacks during the call.
    pub lied: u64,
}

type NestFn = std::rc::Rc<dyn Fn(usize)>;
/// The context of an enclosing call (nested use).
struct Saved {
    active: bool,
    count: u64,
    panic_at: u64,
    next_nest: u64,
    nests: Vec<(u64, usize)>,
    nest_fn: Option<NestFn>,
    kind: u64,
    persist: bool,
    raised: (u64, u64),
    hooked: u64,
    lies: (u64, u64, u64),
    budget: u64,
    lied: u64,
    mask: u32,
}
#[inline(never)]
fn begin(plan: &Plan, nest: Option<NestFn>) -> Saved {
    let mask = sched::mask_swap(1);
    let s = Saved {
        active: ACTIVE.with(|x| x.replace(true)),
        count: COUNT.with(|x| x.replace(0)),
        panic_at: PANIC_AT.with(|x| x.replace(plan.panic_at)),
        next_nest: NEXT_NEST.with(|x| x.replace(plan.nests.first().map_or(0, |n| n.0))),
        nests: NESTS.with(|x| x.replace(plan.nests.clone())),
        nest_fn: NEST_FN.with(|x| x.replace(nest)),
        kind: KIND.with(|x| x.replace(plan.kind)),
        persist: PERSIST.with(|x| x.replace(plan.persist)),
        raised: RAISED.with(|x| x.replace((0, 0))),
        hooked: HOOKED.load(Relaxed),
        lies: LIES.with(|x| x.replace(plan.lies)),
        budget: BUDGET.with(|x| x.replace(plan.budget)),
        lied: LIED.with(|x| x.replace(0)),
        mask,
    };
    bump(st::CALLS, 1);
    sched::mask_swap(0);
    s
}
/// Is this the panic that was raised first in the call?
fn same(e: &(dyn std::any::Any + Send), kind: u64, serial: u64) -> bool {
    match kind {
        0 => e.downcast_ref::<Injected>().map_or(false, |i| i.0 == serial),
        1 => e.downcast_ref::<u64>() == Some(&serial),
        2 => e.downcast_ref::<String>().map_or(false, |s| *s == message(serial)),
        _ => e.downcast_ref::<&'static str>() == Some(&FIXED),
    }
}
struct Ended {
    status: Status,
    msg: String,
    callbacks: u64,
    raised: u64,
    hooked: u64,
    lied: u64,
}
#[inline(never)]
fn end(saved: Saved, err: Option<Box<dyn std::any::Any + Send>>) -> Ended {
    sched::mask_swap(1);
    let callbacks = COUNT.with(|x| x.get());
    bump(st::CALLBACKS, callbacks);
    let kind = KIND.with(|x| x.get());
    let (raised, first) = RAISED.with(|x| x.get());
    ACTIVE.with(|x| x.set(saved.active));
    COUNT.with(|x| x.set(saved.count));
    PANIC_AT.with(|x| x.set(saved.panic_at));
    NEXT_NEST.with(|x| x.set(saved.next_nest));
    NESTS.with(|x| x.replace(saved.nests));
    NEST_FN.with(|x| x.replace(saved.nest_fn));
    KIND.with(|x| x.set(saved.kind));
    PERSIST.with(|x| x.set(saved.persist));
    RAISED.with(|x| x.set(saved.raised));
    LIES.with(|x| x.set(saved.lies));
    BUDGET.with(|x| x.set(saved.budget));
    let lied = LIED.with(|x| x.replace(saved.lied));
    let mut r = Ended { status: Status::Done, msg: String::new(), callbacks, raised, hooked: HOOKED.load(Relaxed) - saved.hooked, lied };
    if let Some(e) = err {
        if raised > 0 && same(&*e, kind, first) {
            r.status = Status::Injected;
        } else {
            r.msg = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if e.is::<Injected>() {
                "<the injected panic, out of its call>".to_string()
            } else {
                "<other payload>".to_string()
            };
            bump(st::NATURAL_PANICS, 1);
            r.status = Status::Panicked;
        }
    }
    sched::mask_swap(saved.mask);
    r
}
/// Runs one library call under `plan`.
pub fn call<T>(plan: &Plan, nest: Option<NestFn>, f: impl FnOnce() -> T) -> CallOut<T> {
    let saved = begin(plan, nest);
    let (value, err) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => (Some(v), None),
        Err(e) => (None, Some(e)),
    };
    let Ended { status, msg, callbacks, raised, hooked, lied } = end(saved, err);
    CallOut { status, value, msg, callbacks, raised, hooked, lied }
}
/// Panics as the current call's plan says.
#[cold]
#[inline(never)]
pub fn raise() -> ! {
    let serial = SERIAL.fetch_add(1, Relaxed) + 1;
    RAISED.with(|x| {
        let (n, first) = x.get();
        x.set((n + 1, if n == 0 { serial } else { first }));
    });
    bump(st::PANICS, 1);
    match KIND.with(|x| x.get()) {
        0 => std::panic::resume_unwind(Box::new(Injected(serial))),
        1 => std::panic::panic_any(serial),
        2 => panic!("{}", message(serial)),
        _ => std::panic::panic_any(FIXED),
    }
}

/// Called by every simulator-owned implementation of something the library calls back. The answer
/// is to be wrong if the result is not zero, and to be drawn from it.
#[inline(never)]
pub fn callback() -> u64 {
    if !ACTIVE.with(|a| a.get()) {
        return 0;
    }
    let n = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    crate::sites::note(crate::sites::CALLBACK);
    sched::yield_point();
    if n == NEXT_NEST.with(|x| x.get()) {
        nest(n);
    }
    let at = PANIC_AT.with(|x| x.get());
    let budget = BUDGET.with(|x| x.get());
    if n == at || at != 0 && n > at && PERSIST.with(|x| x.get()) || budget != 0 && n > budget {
        raise();
    }
    let (first, many, seed) = LIES.with(|x| x.get());
    if first == 0 || n < first || n - first >= many {
        return 0;
    }
    LIED.with(|x| x.set(x.get() + 1));
    bump(st::WRONG_ANSWERS, 1);
    mix(seed ^ n << 20) | 1
}
#[cold]
#[inline(never)]
fn nest(n: u64) {
    let f = NEST_FN.with(|x| x.borrow().clone());
    let Some(f) = f else { return };
    loop {
        let item = NESTS.with(|x| {
            let mut v = x.borrow_mut();
            if v.first().map_or(false, |i| i.0 <= n) {
                Some(v.remove(0))
            } else {
                None
            }
        });
        match item {
            Some((_, k)) => {
                bump(st::NESTED, 1);
                sched::masked(|| f(k));
            }
            None => break,
        }
    }
    NEXT_NEST.with(|x| x.set(NESTS.with(|v| v.borrow().first().map_or(0, |i| i.0))));
}
#[inline(never)]
fn set_active(v: bool) -> bool {
    ACTIVE.with(|x| x.replace(v))
}
pub fn suspended<T>(f: impl FnOnce() -> T) -> T {
    let old = set_active(false);
    let r = f();
    set_active(old);
    r
}

// --- the monomial order in force ------------------------------------------------------------------

thread_local! {
    static ORD: Cell<u64> = const { Cell::new(0) };
}
#[inline(never)]
pub fn order() -> u64 {
    ORD.with(|o| o.get())
}
#[inline(never)]
pub fn set_order(k: u64) -> u64 {
    ORD.with(|o| o.replace(k))
}

// --- adversarial pivot preferences ---------------------------------------------------------------

/// From now on this thread's comparisons of nonzero scalars for stability rank them by a seeded
/// total preorder with at most `levels` classes. `None`: the field's own preference.
#[inline(never)]
pub fn set_pivots(p: Option<(u64, u64)>) {
    PIVOTS.with(|x| x.set(p));
}
#[inline(never)]
pub fn pivot_choice(a: u64, b: u64) -> Option<std::cmp::Ordering> {
    PIVOTS.with(|p| p.get()).map(|(seed, levels)| {
        bump(st::PIVOT_CHOICES, 1);
        let rank = |v: u64| mix(seed ^ v.wrapping_mul(0x9e3779b97f4a7c15)) % levels.max(1);
        rank(a).cmp(&rank(b))
    })
}
