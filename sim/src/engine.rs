//! The call engine: threads of library calls on shared and private operands, under a schedule and
//! faults, every outcome compared with that of the same call alone in a pristine process.
use crate::case::{Case, Item};
use crate::ctx::*;
use simops::catalogue::NAMES;
use simops::{AnyWorld, Op};
use simrt::calls::{CallOut, Plan, Status};
use simrt::rng::{hash128, mix, Rng};
use simrt::sched::{self, Config};
use simrt::shm::{self, fl, st};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
struct Nest {
    at: u64,
    op: Op,
    parent: usize,
    panic_at: u64,
    lies: Lies,
    base: Option<Arc<Base>>,
}
/// Callbacks that answer wrongly: the first, how many, and a seed.
type Lies = (u64, u64, u64);
#[derive(Clone, Debug)]
pub struct Call {
    private: bool,
    pub op: Op,
    pub panic_at: u64,
    nests: Vec<Nest>,
    lies: Lies,
    base: Option<Arc<Base>>,
    pub how: How,
}
/// Where a call that goes by wrong answers is cut short.
fn budget(lies: Lies, b: &Option<Arc<Base>>) -> u64 {
    match b {
        Some(b) if lies.0 != 0 => b.callbacks * 6 + 300,
        _ => 0,
    }
}
/// How user-supplied code panics, and what is made of a nested call's panic.
#[derive(Clone, Copy, Debug, Default)]
pub struct How {
    pub kind: u64,
    persist: bool,
    /// A panic out of a nested call goes on through the call around it.
    through: bool,
    /// Must panics of user-supplied code arrive? (C16)
    deliver: bool,
    /// Does the operating system refuse requests? Then calls may panic for it. (C32)
    refused: bool,
}
#[derive(Clone, Debug)]
pub enum Act {
    Call(usize),
    Churn(u64),
}
pub struct Scenario {
    pub field: usize,
    pub size: u64,
    pub wseed: u64,
    pub calls: Vec<Call>,
    pub threads: Vec<Vec<Act>>,
    pub cfg: Config,
    pub steps: u64,
    depth: u64,
    /// How often every thread goes through its calls.
    reps: u64,
    /// Does user-supplied code answer wrongly somewhere?
    wrong: bool,
}
fn op_at(i: &Item, k: usize) -> Op {
    Op { k: i.u(k), a: i.u(k + 1), b: i.u(k + 2), c: i.u(k + 3) }
}
const NEST0: usize = 7;
const NESTW: usize = 7;

/// item call: thread, private world?, k, a, b, c, panic_at, then per nested call: at, k, a, b, c, parent, panic_at
pub fn parse(ctx: &mut Ctx, c: &Case) -> Scenario {
    let n = c.n("threads").clamp(1, 8);
    let large = simops::world::LARGE;
    let (field, size, wseed) = (c.n("field"), if c.u("size") < large { c.u("size").min(6) } else { c.u("size").min(large + 7) }, c.u("world"));
    let mut s = Scenario {
        field,
        size,
        wseed,
        calls: vec![],
        threads: vec![vec![]; n],
        steps: 0,
        depth: c.u("depth").min(64),
        reps: c.u("reps").clamp(1, 20_000),
        wrong: false,
        cfg: Config {
            threads: n,
            hot_pct: c.u("hot_pct"),
            hot_seed: c.u("hot_seed"),
            entropy: c.u("entropy").max(1),
            clock: c.u("clock"),
            spurious_pct: c.u("spurious_pct").min(90),
            envseed: c.u("env"),
            names: c.u("names"),
            refuse: (c.u("refuse"), c.u("refusals").clamp(1, 400), c.u("refuse_seed")),
            quantum: if c.p("quantum") < 0 { 0 } else { 30_000 },
            ..Config::default()
        },
    };
    let how = How { kind: c.u("kind") % 4, persist: c.p("persist") != 0, through: c.p("through") != 0, deliver: c.prop == "C16", refused: c.u("refuse") > 0 };
    let mut private = vec![wseed; n];
    for i in &c.items {
        match i.tag.as_str() {
            "call" => {
                let t = i.u(0) % n;
                let w = if i.g(1) != 0 { private[t] } else { wseed };
                let op = op_at(i, 2).norm();
                let Some(base) = ctx.base(field, size, w, op) else { continue };
                let mut nests = vec![];
                let mut j = NEST0;
                while j + 5 < i.v.len() {
                    let op = op_at(i, j + 1).norm();
                    if let Some(b) = ctx.base(field, size, w, op) {
                        s.steps += b.steps;
                        let parent = i.u(j + 5);
                        let parent = if parent <= nests.len() { parent } else { 0 };
                        nests.push(Nest { at: i.g(j).max(1) as u64, op, parent, panic_at: i.g(j + 6).max(0) as u64, lies: (0, 0, 0), base: Some(b) });
                    }
                    j += NESTW;
                }
                s.steps += base.steps;
                s.threads[t].push(Act::Call(s.calls.len()));
                s.calls.push(Call { private: i.g(1) != 0, op, panic_at: i.g(6).max(0) as u64, nests, lies: (0, 0, 0), base: Some(base), how });
            }
            "churn" => {
                let t = i.u(0) % n;
                private[t] = i.g(1) as u64;
                s.threads[t].push(Act::Churn(private[t]));
            }
            "switch" => s.cfg.preempts.push((i.g(0).max(0) as u64, i.u(1) % n)),
            "stall" => s.cfg.stalls.push((i.u(0) % n, i.g(1).max(1) as u64)),
            "lie" if !s.calls.is_empty() => {
                let n = s.calls.len();
                let call = &mut s.calls[i.u(0) % n];
                let lies = (i.g(2).max(1) as u64, i.g(3).max(1) as u64, i.g(4) as u64);
                match i.u(1) {
                    0 => call.lies = lies,
                    k => {
                        if let Some(n) = call.nests.get_mut(k - 1) {
                            n.lies = lies;
                        }
                    }
                }
                s.wrong = true;
            }
            "stallhot" => s.cfg.stall_hot.push((i.u(0) % n, i.g(1).max(1) as u64)),
            _ => {}
        }
    }
    s.cfg.preempts.sort();
    s.reps = s.reps.min(1 + 30_000_000 / (s.steps + 1));
    s.steps *= s.reps;
    s.cfg.step_cap = s.steps * 8 + 400_000;
    if s.wrong {
        s.cfg.step_cap = s.steps * 20 + 3_000_000;
    }
    s
}

fn mismatch(o: &CallOut<String>, b: &Base) -> Option<(String, String)> {
    match (o.status, b.status) {
        (Status::Injected, _) => None,
        (Status::Done, Status::Done) => {
            let v = o.value.as_deref().unwrap_or("");
            if v == b.value {
                None
            } else {
                Some(("result-differs".into(), format!("returned {} but alone it returns {}", clip(v), clip(&b.value))))
            }
        }
        (Status::Panicked, Status::Panicked) if o.msg == b.msg => None,
        (Status::Panicked, Status::Panicked) => Some(("panic-differs".into(), format!("panicked with {:?} but alone it panics with {:?}", o.msg, b.msg))),
        (Status::Panicked, _) => Some(("panics".into(), format!("panicked with {:?} but alone it returns {}", o.msg, clip(&b.value)))),
        (Status::Done, _) => Some(("no-panic".into(), format!("returned {} but alone it panics with {:?}", clip(o.value.as_deref().unwrap_or("")), b.msg))),
    }
}
/// A panic that user-supplied code raised during the call reached the caller as it was.
fn undelivered(o: &CallOut<String>, kind: u64) -> Option<(String, String)> {
    if o.raised == 0 {
        return None;
    }
    match o.status {
        Status::Done => Some(("panic-swallowed".into(), format!("returned {} although user-supplied code had panicked in it", clip(o.value.as_deref().unwrap_or(""))))),
        Status::Panicked => Some(("panic-replaced".into(), format!("panicked with {:?} after user-supplied code had panicked in it with something else", o.msg))),
        Status::Injected if kind != 0 && o.hooked < o.raised => Some(("hook-bypassed".into(), "kept a panic of user-supplied code from the process's panic hook".into())),
        Status::Injected => None,
    }
}
fn judge(o: &CallOut<String>, b: &Base, how: How) -> Option<(String, String)> {
    // Going by wrong answers, a call may come to anything.
    if o.lied > 0 {
        return None;
    }
    if how.deliver {
        if let Some(x) = undelivered(o, how.kind) {
            return Some(x);
        }
    }
    mismatch(o, b)
}
static SEEN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
struct Audit(std::cell::UnsafeCell<Option<(AnyWorld, String)>>);
unsafe impl Sync for Audit {}
static AUDIT: Audit = Audit(std::cell::UnsafeCell::new(None));
fn audit() -> bool {
    match unsafe { &*AUDIT.0.get() } {
        Some((w, s)) => w.snapshot() == *s,
        None => true,
    }
}
pub fn violation(class: &str, msg: String) {
    SEEN.store(true, std::sync::atomic::Ordering::Relaxed);
    shm::emit(format!("V\x1f{}\x1f{}", class, msg).as_bytes());
}
/// The schedule and environment a case describes.
pub fn config(c: &Case, n: usize, step_cap: u64) -> Config {
    let mut cfg = Config {
        threads: n,
        hot_pct: c.u("hot_pct"),
        hot_seed: c.u("hot_seed"),
        entropy: c.u("entropy").max(1),
        clock: c.u("clock"),
        spurious_pct: c.u("spurious_pct").min(90),
        quantum: 30_000,
        step_cap,
        ..Config::default()
    };
    for i in c.of("switch") {
        cfg.preempts.push((i.g(0).max(0) as u64, i.u(1) % n));
    }
    cfg.preempts.sort();
    cfg
}
/// Log hash and context switches of a run, as emitted by `finish_log`.
pub fn finish_log(log: Vec<(u64, usize)>, mut h: u64) {
    for (s, t) in &log {
        h = mix(h ^ *s ^ (*t as u64) << 56);
    }
    let mut b = b"L".to_vec();
    b.extend_from_slice(&h.to_le_bytes());
    for (s, t) in log {
        b.extend_from_slice(&s.to_le_bytes());
        b.push(t as u8);
    }
    shm::emit(&b);
}
pub fn read_log(v: &mut Verdict, recs: &[Vec<u8>]) {
    for rec in recs {
        if rec.first() == Some(&b'L') && rec.len() >= 9 {
            v.log = u64::from_le_bytes(rec[1..9].try_into().unwrap());
            v.switches = rec[9..].chunks_exact(9).map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), c[8] as usize)).collect();
        }
    }
}
struct Log(std::cell::UnsafeCell<u64>);
unsafe impl Sync for Log {}
static LOG: Log = Log(std::cell::UnsafeCell::new(0));
fn note(x: u64) {
    unsafe {
        let l = LOG.0.get();
        *l = mix(*l ^ x);
    }
}
pub fn log_hash() -> u64 {
    unsafe { *LOG.0.get() }
}
/// Notes what a call made outside `exec` came to.
pub fn report(o: &CallOut<String>, c: &Call, label: &str) {
    note_outcome(o);
    if let Some((k, m)) = judge(o, c.base.as_ref().unwrap(), c.how) {
        violation(&k, format!("{}: {}({},{},{}) {}", label, c.op.name(), c.op.a, c.op.b, c.op.c, m));
    }
}
fn note_outcome(o: &CallOut<String>) {
    let (a, b) = hash128(o.value.as_deref().unwrap_or(&o.msg).as_bytes());
    note(a ^ b.rotate_left(17) ^ o.status as u64 ^ (o.callbacks << 8));
}

/// Notes that a call that goes by wrong answers begins or ends.
fn astray(lies: Lies, begins: bool) {
    if lies.0 != 0 {
        shm::emit(if begins { b"W+" } else { b"W-" });
    }
}
fn refused() -> u64 {
    shm::shm().stats[st::REFUSALS].load(std::sync::atomic::Ordering::Relaxed)
}
pub fn exec(w: &AnyWorld, call: &Call, label: &str) -> CallOut<String> {
    fn kids(call: &Call, parent: usize) -> Vec<(u64, usize)> {
        let mut v: Vec<(u64, usize)> = call.nests.iter().enumerate().filter(|(_, n)| n.parent == parent).map(|(i, n)| (n.at, i)).collect();
        v.sort();
        v
    }
    fn nest_fn(w: AnyWorld, call: Rc<Call>, label: Rc<str>, depth: usize) -> Rc<dyn Fn(usize)> {
        Rc::new(move |i| {
            let n = &call.nests[i];
            let h = call.how;
            let plan = Plan { panic_at: n.panic_at, nests: if depth < 6 { kids(&call, i + 1) } else { vec![] }, kind: h.kind, persist: h.persist, lies: n.lies, budget: budget(n.lies, &n.base) };
            astray(n.lies, true);
            let o = w.exec(n.op, &plan, Some(nest_fn(w.clone(), call.clone(), label.clone(), depth + 1)), (0, 0));
            astray(n.lies, false);
            note_outcome(&o);
            if let Some((c, m)) = judge(&o, n.base.as_ref().unwrap(), h) {
                violation(&format!("nested-{}", c), format!("{}: {} nested at callback {} {}", label, n.op.name(), n.at, m));
            }
            if h.through && o.status == Status::Injected {
                simrt::calls::raise();
            }
        })
    }
    let plan = Plan { panic_at: call.panic_at, nests: kids(call, 0), kind: call.how.kind, persist: call.how.persist, lies: call.lies, budget: budget(call.lies, &call.base) };
    let nest = if call.nests.is_empty() { None } else { Some(nest_fn(w.clone(), Rc::new(call.clone()), label.into(), 0)) };
    astray(call.lies, true);
    let refusals = refused();
    let o = w.exec(call.op, &plan, nest, (0, 0));
    astray(call.lies, false);
    note_outcome(&o);
    if call.how.refused && refused() > refusals && o.status == Status::Panicked {
        return o;
    }
    if let Some((c, m)) = judge(&o, call.base.as_ref().unwrap(), call.how) {
        violation(&c, format!("{} {}", label, m));
    }
    o
}

#[inline(never)]
fn deep<T>(n: u64, f: impl FnOnce() -> T) -> T {
    let pad = [n as u8; 208];
    std::hint::black_box(&pad);
    if n == 0 {
        f()
    } else {
        let f: Box<dyn FnOnce() -> T + '_> = Box::new(f);
        deep(n - 1, f)
    }
}

thread_local! { static SEQ: Cell<usize> = const { Cell::new(0) }; }

/// Runs a case of C03, C04, C05, C06, C09 or C10.
pub fn run(ctx: &mut Ctx, case: &Case) -> Verdict {
    let s = parse(ctx, case);
    if s.calls.is_empty() {
        return Verdict::discard();
    }
    let check_operands = case.p("audit") != 0;
    let jitter = case.u("jitter");
    let deliver = case.prop == "C16";
    let before = ctx.totals.stats;
    let r = ctx.child(move || {
        simrt::alloc::arena(jitter);
        let mut cfg = s.cfg.clone();
        if check_operands {
            cfg.audit = Some(audit);
        }
        sched::setup(cfg);
        let (field, size, wseed) = (s.field, s.size, s.wseed);
        let shared = AnyWorld::new(field, size, wseed);
        if check_operands {
            unsafe { *AUDIT.0.get() = Some((shared.clone(), shared.snapshot())) };
        }
        let s = Arc::new(s);
        let shared2 = shared.clone();
        let log = sched::run(move |t| {
            sched::masked(|| {
                let s = s.clone();
                let shared = shared2.clone();
                deep(s.depth, move || {
                    let mut private: Option<AnyWorld> = None;
                    let len = s.threads[t].len();
                    for k in 0..len * s.reps as usize {
                        if k % len == 0 {
                            if SEEN.load(std::sync::atomic::Ordering::Relaxed) {
                                break;
                            }
                            private = None;
                        }
                        match &s.threads[t][k % len] {
                            Act::Churn(seed) => {
                                drop(private.take());
                                private = Some(AnyWorld::new(s.field, s.size, *seed));
                            }
                            Act::Call(i) => {
                                let call = &s.calls[*i];
                                let w = if call.private { private.get_or_insert_with(|| AnyWorld::new(s.field, s.size, s.wseed)).clone() } else { shared.clone() };
                                let label = format!("thread {} call {} {}({},{},{})", t, k, call.op.name(), call.op.a, call.op.b, call.op.c);
                                let o = exec(&w, call, &label);
                                if check_operands && !audit() {
                                    let how = if o.status == Status::Done { "returned" } else { "was unwound" };
                                    violation("operands-modified", format!("after {} {}, a borrowed operand has changed", label, how));
                                    // One report suffices; compare with the new state from here on.
                                    unsafe { *AUDIT.0.get() = Some((shared.clone(), shared.snapshot())) };
                                }
                            }
                        }
                    }
                    // The process's panic hook is the caller's, before and after.
                    let hooked = simrt::calls::HOOKED.load(std::sync::atomic::Ordering::SeqCst);
                    if deliver && std::panic::catch_unwind(|| std::panic::panic_any(0u8)).is_err() && simrt::calls::HOOKED.load(std::sync::atomic::Ordering::SeqCst) == hooked {
                        violation("hook-replaced", format!("after thread {}'s calls, the process's panic hook is another", t));
                    }
                })
            })
        });
        let mut b = b"L".to_vec();
        for (s, t) in &log {
            note(*s ^ (*t as u64) << 56);
        }
        b.extend_from_slice(&unsafe { *LOG.0.get() }.to_le_bytes());
        for (s, t) in log {
            b.extend_from_slice(&s.to_le_bytes());
            b.push(t as u8);
        }
        shm::emit(&b);
    });
    let mut v = Verdict::ok(0);
    for rec in &r.recs {
        if rec.starts_with(b"V\x1f") && v.viol.is_none() {
            let s = String::from_utf8_lossy(&rec[2..]).into_owned();
            let mut p = s.splitn(2, '\x1f');
            v.viol = Some((p.next().unwrap().into(), p.next().unwrap_or("").into()));
        }
        if rec.first() == Some(&b'L') && rec.len() >= 9 {
            v.log = u64::from_le_bytes(rec[1..9].try_into().unwrap());
            v.switches = rec[9..].chunks_exact(9).map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), c[8] as usize)).collect();
        }
    }
    if v.viol.is_none() && r.flags & fl::AUDIT_FAILED != 0 {
        v.viol = Some(("operands-modified-midway".into(), "while a call was running, a borrowed operand was seen changed".into()));
    }
    let astray = |what: &[u8]| r.recs.iter().filter(|x| x.as_slice() == what).count();
    if matches!(r.end, shm::End::Exit(77)) && astray(b"W+") > astray(b"W-") {
        // A call led astray may also go on for ever.
        return Verdict::discard();
    }
    if v.viol.is_none() {
        v.viol = bad_end(&r);
    }
    let d = |i: usize| ctx.totals.stats[i] - before[i];
    v.nontrivial = match case.prop.as_str() {
        "C03" => true,
        "C04" => d(st::PREEMPTS) > 0 && case.p("threads") > 1,
        "C05" => d(st::CALLS) > 10 || d(st::PANICS) + d(st::NATURAL_PANICS) > 0,
        "C06" => d(st::AUDITS) > 0 || d(st::PANICS) > 0,
        "C09" => d(st::STALLS) > 0,
        "C10" => d(st::NESTED) > 0,
        "C16" => d(st::PANICS) > 0,
        "C18" => d(st::WRONG_ANSWERS) > 0,
        "C32" => d(st::REFUSALS) > 0,
        _ => true,
    };
    v
}

// --- generation ----------------------------------------------------------------------------------

pub struct Palette {
    pub ops: Vec<(Op, Arc<Base>)>,
}
fn groups() -> Vec<Vec<usize>> {
    let mut g: Vec<(String, Vec<usize>)> = vec![];
    for (i, n) in NAMES.iter().enumerate() {
        let p = n.split('.').next().unwrap().to_string();
        match g.iter_mut().find(|x| x.0 == p) {
            Some(x) => x.1.push(i),
            None => g.push((p, vec![i])),
        }
    }
    g.into_iter().map(|x| x.1).collect()
}
pub fn random_op(r: &mut Rng, focus: &[usize]) -> Op {
    let k = if focus.is_empty() { r.us(NAMES.len()) } else { *r.pick(focus) };
    Op { k, a: r.us(12), b: r.us(12), c: r.us(12) }
}
/// Operations to concentrate on: everything, one group, or a handful.
pub fn random_focus(r: &mut Rng) -> Vec<usize> {
    match r.below(4) {
        0 => vec![],
        1 => {
            let g = groups();
            r.pick(&g).clone()
        }
        2 => {
            let g = groups();
            let mut v = r.pick(&g).clone();
            v.extend(r.pick(&g).iter());
            v
        }
        _ => (0..1 + r.us(5)).map(|_| r.us(NAMES.len())).collect(),
    }
}
/// The calls a case draws from. In a world out of the pool they are the same ones every time, so
/// that what each returns by itself need not be established anew.
pub fn palette(ctx: &mut Ctx, r: &mut Rng, c: &Case, world: u64, want: usize, max_steps: u64, min_callbacks: u64) -> Palette {
    if world >> 40 == 0 {
        return draw_palette(ctx, r, c, world, want, max_steps, min_callbacks);
    }
    let mut q = Rng::sub(mix(world ^ c.u("field") << 8 ^ c.u("size")), max_steps ^ min_callbacks);
    let mut p = draw_palette(ctx, &mut q, c, world, want.max(10), max_steps, min_callbacks);
    while p.ops.len() > want {
        p.ops.swap_remove(r.us(p.ops.len()));
    }
    p
}
fn draw_palette(ctx: &mut Ctx, r: &mut Rng, c: &Case, world: u64, want: usize, max_steps: u64, min_callbacks: u64) -> Palette {
    let mut focus = random_focus(r);
    let mut ops = vec![];
    // In a world where calls touch static memory or the environment, mostly those and their like.
    let here = (c.n("field"), c.u("size"));
    let suspects: Vec<Op> = ctx.suspects().iter().filter(|s| (s.0, s.1, s.2) == (here.0, here.1, world)).map(|s| s.3).collect();
    if !suspects.is_empty() && r.chance(3, 4) {
        focus = suspects.iter().map(|s| s.k).collect();
    }
    // Kinds of calls that call back: those over the simulator's coefficients, orders, sinks, iterators.
    let own = !matches!(c.n("field") % 5, 2 | 3);
    let talks = |k: usize| {
        let n = NAMES[k];
        ["show", "debug", "rat.sum", "from_iter", "util.max", "comp."].iter().any(|x| n.contains(x))
            || own && ["scal.", "mat.", "elim.", "cone.", "term.", "poly."].iter().any(|x| n.starts_with(x))
    };
    if min_callbacks > 0 {
        focus.retain(|k| talks(*k));
        if focus.is_empty() {
            focus = (0..NAMES.len()).filter(|k| talks(*k)).collect();
        }
    }
    for _ in 0..want * 4 + 16 {
        if ops.len() >= want {
            break;
        }
        let mut op = random_op(r, &focus).norm();
        if !suspects.is_empty() && r.chance(1, 2) {
            op = *r.pick(&suspects);
        }
        if let Some(b) = ctx.base(c.n("field"), c.u("size"), world, op) {
            if b.steps <= max_steps && b.callbacks >= min_callbacks {
                ops.push((op, b));
            }
        }
    }
    Palette { ops }
}
pub fn call_item(t: usize, private: bool, op: Op, panic_at: u64) -> Vec<i64> {
    vec![t as i64, private as i64, op.k as i64, op.a as i64, op.b as i64, op.c as i64, panic_at as i64]
}
/// A crash point: anywhere, near the start or the end of the call, or at some place in the code.
pub fn crash_point(r: &mut Rng, callbacks: u64, sites: &[[u32; 3]]) -> u64 {
    if callbacks == 0 {
        return 0;
    }
    if !sites.is_empty() && r.chance(1, 2) {
        return r.pick(sites)[r.us(3)] as u64;
    }
    match r.below(4) {
        0 => 1 + r.below(callbacks.min(6)),
        1 => callbacks - r.below(callbacks.min(8)),
        _ => 1 + r.below(callbacks),
    }
}
pub fn worlds(ctx: &mut Ctx, r: &mut Rng, c: &mut Case, max_size: u64) {
    let suspects = ctx.suspects();
    if !suspects.is_empty() && r.chance(1, 2) {
        let s = r.pick(&suspects);
        c.set("field", s.0 as i64);
        c.set("size", s.1 as i64);
        c.set("world", s.2 as i64);
        return;
    }
    let pooled = r.chance(1, 2);
    let fresh = r.below(1 << 30);
    let id = mix(ctx.seed ^ mix(r.below(ctx.pool)));
    let mut of_pool = Rng::sub(id, 1);
    let r = if pooled { &mut of_pool } else { r };
    c.set("world", if pooled { (id >> 24 | 1 << 40) as i64 } else { fresh as i64 });
    c.set("field", r.us(5) as i64);
    let larger = if r.chance(1, 8) { 1 + r.below(3) } else { 0 };
    c.set("size", (r.below(max_size + 1) + larger) as i64);
}
pub fn random_env(r: &mut Rng, c: &mut Case, force: bool) {
    if force || r.chance(1, 3) {
        c.set("entropy", (2 + r.below(1 << 40)) as i64);
    }
    if r.chance(1, 3) {
        c.set("clock", (1 + r.below(1 << 30)) as i64);
    }
    if force || r.chance(1, 3) {
        c.set("jitter", (r.below(1 << 30)) as i64);
    }
    if force && r.chance(2, 3) {
        c.set("env", (1 + r.below(1 << 30)) as i64);
    }
    if force && r.chance(1, 3) {
        c.set("names", (1 + r.below(1 << 30)) as i64);
    }
    if r.chance(1, 3) {
        c.set("depth", r.below(60) as i64);
    }
}

pub fn gen(ctx: &mut Ctx, prop: &str, r: &mut Rng) -> Case {
    match prop {
        "C03" => gen_env(ctx, r),
        "C04" => gen_threads(ctx, r),
        "C05" => gen_history(ctx, r),
        "C06" => gen_operands(ctx, r),
        "C09" => gen_stalls(ctx, r),
        "C16" => gen_delivery(ctx, r),
        "C18" => gen_wrong(ctx, r),
        "C32" => gen_refusals(ctx, r),
        _ => gen_nested(ctx, r),
    }
}
fn gen_env(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C03");
    worlds(ctx, r, &mut c, 3);
    let n = 1 + r.us(3);
    c.set("threads", n as i64);
    random_env(r, &mut c, true);
    let world = c.u("world");
    let want = 3 + r.us(12);
    let p = palette(ctx, r, &c, world, want, 300_000, 0);
    let t = r.us(n);
    for (op, _) in &p.ops {
        let t = if r.chance(1, 4) { r.us(n) } else { t };
        c.push("call", call_item(t, r.chance(1, 4), *op, 0));
    }
    c
}
fn gen_threads(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C04");
    worlds(ctx, r, &mut c, 2);
    let n = 2 + r.us(3);
    c.set("threads", n as i64);
    random_env(r, &mut c, false);
    let world = c.u("world");
    let want = 1 + r.us(6);
    let p = palette(ctx, r, &c, world, want, 30_000, 0);
    if p.ops.is_empty() {
        return c;
    }
    let mut total = 0;
    let panics = r.chance(1, 4);
    let per = 1 + r.us(5);
    for t in 0..n {
        if r.chance(1, 4) {
            c.push("churn", vec![t as i64, sibling(r, world) as i64]);
        }
        for _ in 0..per {
            let (op, b) = r.pick(&p.ops);
            total += b.steps;
            let at = if panics && r.chance(1, 3) { crash_point(r, b.callbacks, &b.cb_sites) } else { 0 };
            c.push("call", call_item(t, r.chance(1, 4), *op, at));
        }
    }
    schedule(r, &mut c, n, total);
    c
}
/// A private world's seed; one of few for a world out of the pool.
fn sibling(r: &mut Rng, world: u64) -> u64 {
    if world >> 40 == 0 {
        r.below(1 << 30)
    } else {
        mix(world ^ r.below(5)) >> 34
    }
}
pub fn schedule(r: &mut Rng, c: &mut Case, n: usize, total: u64) {
    match r.below(3) {
        0 => {
            for _ in 0..1 + r.us(4) {
                c.push("switch", vec![r.below(total + 1) as i64, r.us(n) as i64]);
            }
        }
        1 => {
            let scale = *r.pick(&[8, 60, 800]);
            let every = 1 + r.below(scale);
            let mut s = r.below(every);
            let mut k = 0;
            while s < total && k < 600 {
                c.push("switch", vec![s as i64, r.us(n) as i64]);
                s += 1 + r.below(2 * every);
                k += 1;
            }
        }
        _ => {
            for _ in 0..r.us(12) {
                c.push("switch", vec![r.below(total + 1) as i64, r.us(n) as i64]);
            }
        }
    }
    if r.chance(3, 5) {
        c.set("hot_pct", *r.pick(&[3, 12, 35, 70, 95]));
        c.set("hot_seed", r.below(1 << 30) as i64);
    }
    if r.chance(1, 5) {
        c.set("spurious_pct", 20);
    }
}
fn gen_history(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C05");
    worlds(ctx, r, &mut c, 3);
    c.set("threads", if r.chance(1, 6) { 2 } else { 1 });
    random_env(r, &mut c, false);
    let world = c.u("world");
    let long = r.chance(1, 4);
    // A short history again and again, for as long as the step budget allows.
    let marathon = r.chance(1, if ctx.suspects().is_empty() { 40 } else { 8 });
    let (want, len, max) = if marathon {
        (1 + r.us(6), 1 + r.us(16), 3_000)
    } else if long { (4 + r.us(60), 150 + r.us(500), 3_000) } else { (2 + r.us(10), 8 + r.us(60), 30_000) };
    let p = palette(ctx, r, &c, world, want, max, 0);
    if p.ops.is_empty() {
        return c;
    }
    let rate = *r.pick(&[0, 10, 30, 60]);
    let churny = r.chance(1, 3);
    let mut private = world;
    // With several private worlds of one shape, later operands occupy the memory of earlier ones.
    let pool: Vec<u64> = (0..1 + r.us(4)).map(|_| sibling(r, world)).collect();
    let mut steps = 0;
    for _ in 0..len {
        if churny && r.chance(1, 6) {
            private = *r.pick(&pool);
            c.push("churn", vec![0, private as i64]);
        }
        let on_private = churny && r.chance(1, 2);
        let (op, b) = r.pick(&p.ops).clone();
        let b = if on_private { ctx.base(c.n("field"), c.u("size"), private, op) } else { Some(b) };
        let Some(b) = b else { continue };
        steps += b.steps;
        if steps > 2_000_000 {
            break;
        }
        if marathon {
            c.set("reps", (10_000_000 / (steps + 1)).min(20_000) as i64);
        }
        let at = if r.below(100) < rate { crash_point(r, b.callbacks, &b.cb_sites) } else { 0 };
        c.push("call", call_item(0, on_private, op, at));
    }
    if c.p("threads") == 2 {
        // A second thread that makes some of the same calls, before, between or after.
        for _ in 0..1 + r.us(6) {
            let (op, b) = r.pick(&p.ops);
            let at = if r.chance(1, 3) { crash_point(r, b.callbacks, &b.cb_sites) } else { 0 };
            c.push("call", call_item(1, false, *op, at));
        }
        for _ in 0..r.us(6) {
            c.push("switch", vec![r.below(steps + 1) as i64, r.us(2) as i64]);
        }
    }
    c
}
fn gen_operands(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C06");
    worlds(ctx, r, &mut c, 2);
    let n = 1 + r.us(2);
    c.set("threads", n as i64);
    c.set("audit", 1);
    let world = c.u("world");
    let want = 1 + r.us(4);
    let p = palette(ctx, r, &c, world, want, 30_000, 0);
    let mut total = 0;
    for _ in 0..1 + r.us(6) {
        if p.ops.is_empty() {
            break;
        }
        let (op, b) = r.pick(&p.ops);
        total += b.steps;
        let at = if r.chance(2, 5) { crash_point(r, b.callbacks, &b.cb_sites) } else { 0 };
        c.push("call", call_item(r.us(n), false, *op, at));
    }
    for _ in 0..3 + r.us(25) {
        c.push("switch", vec![r.below(total + 1) as i64, r.us(n) as i64]);
    }
    c
}
fn gen_stalls(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C09");
    worlds(ctx, r, &mut c, 2);
    let n = 2 + r.us(3);
    c.set("threads", n as i64);
    c.set("quantum", -1);
    let world = c.u("world");
    let (want, max) = (1 + r.us(4), *r.pick(&[400, 2_000, 20_000]));
    let p = palette(ctx, r, &c, world, want, max, 0);
    if p.ops.is_empty() {
        return c;
    }
    let mut mine = vec![0u64; n];
    for t in 0..n {
        for _ in 0..1 + r.us(3) {
            let (op, b) = r.pick(&p.ops);
            mine[t] += b.steps;
            let at = if r.chance(1, 8) { crash_point(r, b.callbacks, &b.cb_sites) } else { 0 };
            c.push("call", call_item(t, false, *op, at));
        }
    }
    let total: u64 = mine.iter().sum();
    // Which threads stop, and whether at any point or where they touch memory that calls share.
    let k = 1 + r.us(n - 1);
    let first = r.us(n);
    let hot = if ctx.suspects().is_empty() { 25 } else { *r.pick(&[0, 25, 100]) };
    for j in 0..k {
        let t = (first + j) % n;
        if r.below(100) < hot {
            let far = *r.pick(&[4, 40]);
            c.push("stallhot", vec![t as i64, 1 + r.below(far) as i64]);
        } else {
            c.push("stall", vec![t as i64, 1 + r.below(mine[t] + 1) as i64]);
        }
    }
    for _ in 0..r.us(6) {
        c.push("switch", vec![r.below(total + 1) as i64, r.us(n) as i64]);
    }
    c
}
fn gen_nested(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C10");
    worlds(ctx, r, &mut c, 2);
    // Coefficients behind callbacks in most runs; sinks and iterators call back in all.
    if r.chance(3, 4) {
        let f = *r.pick(&[0, 1, 4]);
        c.set("field", f);
    }
    let n = if r.chance(1, 5) { 2 } else { 1 };
    c.set("threads", n);
    let world = c.u("world");
    let (want, inner_want) = (1 + r.us(4), r.us(4));
    let outer = palette(ctx, r, &c, world, want, 20_000, 1);
    let mut inner = palette(ctx, r, &c, world, inner_want, 8_000, 0);
    inner.ops.extend(outer.ops.iter().filter(|o| o.1.steps < 8_000).cloned());
    if outer.ops.is_empty() || inner.ops.is_empty() {
        return c;
    }
    let mut total = 0;
    for _ in 0..1 + r.us(5) {
        let (op, b) = r.pick(&outer.ops);
        total += b.steps;
        let at = if r.chance(1, 6) { crash_point(r, b.callbacks, &b.cb_sites) } else { 0 };
        let mut v = call_item(r.us(n as usize), false, *op, at);
        let k = 1 + r.us(6);
        let mut cbs = vec![b.clone()];
        for j in 0..k {
            let (iop, ib) = r.pick(&inner.ops);
            let parent = if r.chance(2, 3) { 0 } else { r.us(j + 1) };
            let when = crash_point(r, cbs[parent].callbacks, &cbs[parent].cb_sites).max(1);
            let ipanic = if r.chance(1, 5) { crash_point(r, ib.callbacks, &ib.cb_sites) } else { 0 };
            v.extend([when as i64, iop.k as i64, iop.a as i64, iop.b as i64, iop.c as i64, parent as i64, ipanic as i64]);
            cbs.push(ib.clone());
            total += ib.steps;
        }
        c.push("call", v);
    }
    if n > 1 {
        for _ in 0..r.us(10) {
            c.push("switch", vec![r.below(total + 1) as i64, r.us(n as usize) as i64]);
        }
    }
    c
}

fn gen_delivery(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C16");
    worlds(ctx, r, &mut c, 2);
    // Mostly coefficients that call back.
    if r.chance(2, 3) {
        c.set("field", *r.pick(&[0, 1, 4]));
    }
    let n = if r.chance(1, 5) { 2 } else { 1 };
    c.set("threads", n as i64);
    c.set("kind", r.below(4) as i64);
    c.set("persist", r.chance(1, 3) as i64);
    let nesting = r.chance(1, 4);
    c.set("through", (nesting && r.chance(2, 3)) as i64);
    let world = c.u("world");
    let want = 1 + r.us(5);
    let outer = palette(ctx, r, &c, world, want, 30_000, 1);
    let mut total = 0;
    for _ in 0..1 + r.us(6) {
        if outer.ops.is_empty() {
            break;
        }
        let (op, b) = r.pick(&outer.ops);
        total += b.steps;
        let mut at = crash_point(r, b.callbacks, &b.cb_sites);
        let mut v = call_item(r.us(n), false, *op, at);
        if nesting && r.chance(2, 3) {
            let (iop, ib) = r.pick(&outer.ops);
            let when = crash_point(r, b.callbacks, &b.cb_sites).max(1);
            if r.chance(2, 3) {
                at = 0;
            }
            v[6] = at as i64;
            let ipanic = crash_point(r, ib.callbacks, &ib.cb_sites);
            v.extend([when as i64, iop.k as i64, iop.a as i64, iop.b as i64, iop.c as i64, 0, ipanic as i64]);
        }
        c.push("call", v);
    }
    if n > 1 {
        for _ in 0..r.us(10) {
            c.push("switch", vec![r.below(total + 1) as i64, r.us(n) as i64]);
        }
    }
    c
}

fn gen_wrong(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C18");
    worlds(ctx, r, &mut c, 2);
    if r.chance(3, 4) {
        c.set("field", *r.pick(&[0, 1, 4]));
    }
    let n = if r.chance(1, 4) { 2 } else { 1 };
    c.set("threads", n as i64);
    c.set("audit", r.chance(2, 3) as i64);
    let world = c.u("world");
    let (want, inner_want) = (1 + r.us(3), 1 + r.us(3));
    let outer = palette(ctx, r, &c, world, want, 20_000, 1);
    if outer.ops.is_empty() {
        return c;
    }
    let any = if r.chance(1, 2) { palette(ctx, r, &c, world, inner_want, 8_000, 0) } else { Palette { ops: outer.ops.clone() } };
    let all: Vec<_> = outer.ops.iter().chain(any.ops.iter()).cloned().collect();
    let nesting = r.chance(1, 4);
    let mut total = 0;
    let lie = |r: &mut Rng, c: &mut Case, call: usize, nest: usize, b: &Base| {
        let from = crash_point(r, b.callbacks, &b.cb_sites).max(1);
        let many = *r.pick(&[1, 1, 1, 2, 3, 10, 1_000_000]);
        c.push("lie", vec![call as i64, nest as i64, from as i64, many, r.below(1 << 40) as i64]);
    };
    let mut lying = vec![];
    let calls = 2 + r.us(9);
    for k in 0..calls {
        let wrong = k == 0 || r.chance(2, 5);
        let (op, b) = if wrong { r.pick(&outer.ops) } else { r.pick(&all) };
        total += b.steps;
        let at = if r.chance(1, 12) { crash_point(r, b.callbacks, &b.cb_sites) } else { 0 };
        let mut v = call_item(r.us(n), false, *op, at);
        if nesting && b.callbacks > 0 && r.chance(1, 2) {
            let (iop, ib) = r.pick(&all);
            let when = crash_point(r, b.callbacks, &b.cb_sites).max(1);
            v.extend([when as i64, iop.k as i64, iop.a as i64, iop.b as i64, iop.c as i64, 0, 0]);
            total += ib.steps;
            if ib.callbacks > 0 && r.chance(2, 3) {
                lying.push((k, 1, ib.clone()));
            }
        }
        c.push("call", v);
        if wrong {
            lying.push((k, 0, b.clone()));
        }
    }
    for (k, nest, b) in lying {
        lie(r, &mut c, k, nest, &b);
    }
    if n > 1 {
        schedule(r, &mut c, n, total);
    }
    c
}

fn gen_refusals(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C32");
    worlds(ctx, r, &mut c, 2);
    let n = if r.chance(1, 4) { 2 } else { 1 };
    c.set("threads", n as i64);
    let everything = r.chance(1, 3);
    random_env(r, &mut c, everything);
    let world = c.u("world");
    // Mostly calls that ask the operating system for something; the keys of hash tables do.
    let want = 6 + r.us(8);
    let p = palette(ctx, r, &c, world, want, 150_000, 0);
    let mut asking: Vec<_> = p.ops.iter().filter(|o| o.1.requests > 0).cloned().collect();
    for _ in 0..8 {
        if !asking.is_empty() {
            break;
        }
        let kinds: Vec<usize> = (0..NAMES.len()).filter(|k| ["elim.", "cone."].iter().any(|x| NAMES[*k].starts_with(x))).collect();
        let op = random_op(r, &kinds).norm();
        asking = ctx.base(c.n("field"), c.u("size"), world, op).filter(|b| b.requests > 0).map(|b| (op, b)).into_iter().collect();
    }
    if p.ops.is_empty() && asking.is_empty() {
        return c;
    }
    if asking.iter().any(|o| o.1.rare_requests > 0) && r.chance(3, 4) {
        asking.retain(|o| o.1.rare_requests > 0);
    }
    let mut requests = 0;
    for _ in 0..1 + r.us(5) {
        let (op, b) = if p.ops.is_empty() || !asking.is_empty() && r.chance(3, 4) { r.pick(&asking) } else { r.pick(&p.ops) };
        requests += b.requests;
        let at = if r.chance(1, 10) { crash_point(r, b.callbacks, &b.cb_sites) } else { 0 };
        c.push("call", call_item(r.us(n), r.chance(1, 4), *op, at));
    }
    c.set("refuse", 1 + r.below(requests.clamp(1, 60)) as i64);
    c.set("refusals", *r.pick(&[1, 1, 2, 5, 400]));
    c.set("refuse_seed", r.below(1 << 30) as i64);
    for _ in 0..r.us(5) {
        c.push("switch", vec![r.below(4_000) as i64, r.us(n) as i64]);
    }
    c
}

// --- C11: memory over repetitions ------------------------------------------------------------------

/// Prints nothing, spawns a simulated thread per repetition when `fresh`.
pub fn run_memory(ctx: &mut Ctx, case: &Case) -> Verdict {
    let mut s = parse(ctx, case);
    if s.calls.is_empty() || s.steps > 60_000 {
        return Verdict::discard();
    }
    s.cfg.threads = 1;
    s.cfg.step_cap = s.steps * 8_000 + 10_000_000;
    let fresh = case.p("fresh") != 0;
    let jitter = case.u("jitter");
    let r = ctx.child(move || {
        simrt::alloc::arena(jitter);
        sched::setup(s.cfg.clone());
        let w = AnyWorld::new(s.field, s.size, s.wseed);
        let s = Arc::new(s);
        let samples: Arc<Mutex<Vec<(u64, i64)>>> = Arc::new(Mutex::new(Vec::with_capacity(32)));
        let out = samples.clone();
        sched::run(move |_| {
            sched::masked(|| {
                let live = || simrt::alloc::LIVE.load(std::sync::atomic::Ordering::SeqCst);
                let rep = |s: &Scenario, w: &AnyWorld| {
                    for a in &s.threads[0] {
                        if let Act::Call(i) = a {
                            let call = &s.calls[*i];
                            let plan = Plan { panic_at: call.panic_at, ..Plan::default() };
                            note_outcome(&w.exec(call.op, &plan, None, (0, 0)));
                        }
                    }
                };
                let mut next = 8u64;
                for k in 1..=1024u64 {
                    if fresh {
                        let (s, w) = (s.clone(), w.clone());
                        let h = std::thread::spawn(move || sched::masked(|| rep(&s, &w)));
                        sched::unmasked(|| h.join().unwrap());
                    } else {
                        rep(&s, &w);
                    }
                    if k == next {
                        out.lock().unwrap().push((k, live()));
                        next *= 2;
                        let v = out.lock().unwrap();
                        let growing = v.windows(2).all(|p| p[1].1 > p[0].1);
                        // 8, 16, 32, 64: stop unless every doubling so far has grown the heap.
                        if k >= 64 && !growing {
                            break;
                        }
                    }
                }
                let v = out.lock().unwrap();
                if v.last().map_or(false, |x| x.0 == 1024) && v.windows(2).all(|p| p[1].1 > p[0].1) {
                    violation("memory-grows", format!("live bytes after each number of repetitions: {:?}", *v));
                }
                let b0 = v.first().map_or(0, |x| x.1);
                note(v.iter().fold(0, |h, x| mix(h ^ x.0 ^ ((x.1 - b0) as u64) << 20)));
            })
        });
        let mut b = b"L".to_vec();
        b.extend_from_slice(&unsafe { *LOG.0.get() }.to_le_bytes());
        shm::emit(&b);
    });
    collect(&r)
}
/// Violation and log hash from a child's records, or from the way it ended.
pub fn collect(r: &simrt::shm::RunOut) -> Verdict {
    let mut v = Verdict::ok(0);
    for rec in &r.recs {
        if rec.starts_with(b"V\x1f") && v.viol.is_none() {
            let s = String::from_utf8_lossy(&rec[2..]).into_owned();
            let mut p = s.splitn(2, '\x1f');
            v.viol = Some((p.next().unwrap().into(), p.next().unwrap_or("").into()));
        }
        if rec.first() == Some(&b'L') && rec.len() >= 9 {
            v.log = u64::from_le_bytes(rec[1..9].try_into().unwrap());
        }
    }
    if v.viol.is_none() {
        v.viol = bad_end(r);
    }
    v
}
pub fn gen_memory(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C11");
    worlds(ctx, r, &mut c, 2);
    c.set("threads", 1);
    if r.chance(1, 5) {
        c.set("fresh", 1);
    }
    let world = c.u("world");
    let want = 1 + r.us(6);
    let p = palette(ctx, r, &c, world, want, 6_000, 0);
    let mut steps = 0;
    for _ in 0..1 + r.us(8) {
        if p.ops.is_empty() || steps > 20_000 {
            break;
        }
        let (op, b) = r.pick(&p.ops);
        steps += b.steps;
        let at = if r.chance(3, 5) { crash_point(r, b.callbacks, &b.cb_sites) } else { 0 };
        c.push("call", call_item(0, false, *op, at));
    }
    c
}

// --- C12: failing allocations ----------------------------------------------------------------------

/// item call as above; item fail: call index, first failing allocation, how many fail.
pub fn run_alloc(ctx: &mut Ctx, case: &Case) -> Verdict {
    let s = parse(ctx, case);
    if s.calls.is_empty() {
        return Verdict::discard();
    }
    let s = Arc::new(s);
    let mut log = 0;
    let fails: Vec<(usize, u64, u64)> = case.of("fail").map(|i| (i.u(0) % s.calls.len(), i.g(1).max(1) as u64, i.g(2).max(1) as u64)).collect();
    let before = ctx.totals.stats[st::ALLOC_FAILS];
    for (ci, at, n) in fails {
        let s = s.clone();
        let call = s.calls[ci].clone();
        let call2 = call.clone();
        let base = call.base.clone().unwrap();
        let label = format!("{}({},{},{}) with allocation {} failing ({} in a row)", call.op.name(), call.op.a, call.op.b, call.op.c, at, n);
        let lab = label.clone();
        let jitter = case.u("jitter");
        let warm = case.u("warm") as usize;
        let r = ctx.child(move || {
            simrt::alloc::arena(jitter);
            sched::setup(s.cfg.clone());
            let w = AnyWorld::new(s.field, s.size, s.wseed);
            sched::run(move |t| {
                if t != 0 {
                    return;
                }
                sched::masked(|| {
                    // Sometimes calls before, so that the failure does not only meet first-time allocations.
                    for k in 0..warm {
                        w.exec(s.calls[(ci + k) % s.calls.len()].op, &Plan::default(), None, (0, 0));
                    }
                    let o = w.exec(call.op, &Plan::default(), None, (at, n));
                    simrt::alloc::window(false, 0, 0);
                    let failed = simrt::alloc::FAILED.load(std::sync::atomic::Ordering::SeqCst) > 0;
                    note_outcome(&o);
                    match o.status {
                        Status::Done => {
                            if let Some((c, m)) = mismatch(&o, &base) {
                                violation(&c, format!("{} {}", lab, m));
                            }
                        }
                        _ if !failed => {
                            if let Some((c, m)) = mismatch(&o, &base) {
                                violation(&c, format!("{} (not reached) {}", lab, m));
                            }
                        }
                        _ => {}
                    }
                    // Whatever became of it, the same call with memory available is unaffected.
                    let o = w.exec(call.op, &Plan::default(), None, (0, 0));
                    note_outcome(&o);
                    if let Some((c, m)) = mismatch(&o, &base) {
                        violation(&format!("later-{}", c), format!("after {}, the same call {}", lab, m));
                    }
                })
            });
            let mut b = b"L".to_vec();
            b.extend_from_slice(&unsafe { *LOG.0.get() }.to_le_bytes());
            shm::emit(&b);
        });
        // Dying of the failed allocation (abort) is allowed; any other death is not.
        if matches!(r.end, shm::End::Signal(6)) && r.stats[st::ALLOC_FAILS] > 0 {
            log = mix(log ^ 6 ^ hash128(format!("{}{}", label, call2.base.as_ref().unwrap().value).as_bytes()).0);
            continue;
        }
        let v = collect(&r);
        log = mix(log ^ v.log ^ at << 32);
        if let Some((c, m)) = v.viol {
            let m = if m.contains("allocation") { m } else { format!("{}: {}", label, m) };
            return Verdict { viol: Some((c, m)), ..Verdict::ok(log) };
        }
    }
    let mut v = Verdict::ok(log);
    v.nontrivial = ctx.totals.stats[st::ALLOC_FAILS] > before;
    v
}
pub fn gen_alloc(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C12");
    worlds(ctx, r, &mut c, 2);
    c.set("threads", 1);
    let world = c.u("world");
    let want = 1 + r.us(3);
    let mut p = palette(ctx, r, &c, world, want, 30_000, 0);
    for _ in 0..8 {
        p.ops.retain(|o| o.1.allocs > 0);
        if !p.ops.is_empty() {
            break;
        }
        p = palette(ctx, r, &c, world, want, 30_000, 0);
    }
    if r.chance(1, 3) {
        c.set("warm", 1 + r.below(2) as i64);
    }
    for (i, (op, b)) in p.ops.iter().filter(|o| o.1.allocs > 0).enumerate() {
        c.push("call", call_item(0, false, *op, 0));
        for _ in 0..1 + r.us(4) {
            let at = match r.below(5) {
                3 | 4 if !b.al_sites.is_empty() => r.pick(&b.al_sites)[r.us(3)] as u64,
                0 => 1 + r.below(b.allocs.min(4)),
                1 => b.allocs - r.below(b.allocs.min(4)),
                _ => 1 + r.below(b.allocs),
            };
            let n = if r.chance(1, 2) { 1 } else { 1_000_000 };
            c.push("fail", vec![i as i64, at as i64, n]);
        }
    }
    c
}
