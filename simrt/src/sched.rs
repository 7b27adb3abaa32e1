//! The scheduler: real threads, of which exactly one runs at a time. Who runs changes only at
//! yield points (every basic-block edge and memory access of the instrumented crates, every
//! callback into simulator-owned code, every blocking call), and only as the run's schedule says.
use crate::rng::Rng;
use crate::shm::{bump, fl, flag, shm, st};
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, AtomicU64, Ordering};

pub const MAXT: usize = 32;
const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum State {
    Unused,
    Runnable,
    Futex { addr: usize, bits: u32, deadline: u64 },
    Join(usize),
    Sleep(u64),
    Stalled,
    Finished,
}

/// Everything that decides an execution.
#[derive(Clone, Default, Debug)]
pub struct Config {
    pub threads: usize,
    /// (global step, thread to run next), ascending.
    pub preempts: Vec<(u64, usize)>,
    /// (thread, its own step at which it stops for good).
    pub stalls: Vec<(usize, u64)>,
    pub step_cap: u64,
    /// Percent chance of a switch at an access to static or thread-local memory.
    pub hot_pct: u64,
    pub hot_seed: u64,
    pub entropy: u64,
    pub clock: u64,
    /// Percent chance that a futex wait returns without having been woken.
    pub spurious_pct: u64,
    pub audit: Option<fn() -> bool>,
    /// A thread that ran this many steps in a row gives way (a fair processor); 0 = never.
    pub quantum: u64,
    /// (thread, its n-th access to static or thread-local memory after which it stops for good).
    pub stall_hot: Vec<(usize, u64)>,
    /// What environment variables, processor counts and the like look like; 0 = plain.
    pub envseed: u64,
    /// What the threads are called; 0 = nothing.
    pub names: u64,
    /// Requests to the operating system that it refuses: the first, how many, and what for.
    pub refuse: (u64, u64, u64),
}

struct Sim {
    cfg: Config,
    cur: usize,
    n: usize,
    steps: u64,
    next_ev: u64,
    pi: usize,
    state: [State; MAXT],
    woken: [bool; MAXT],
    local: [u64; MAXT],
    stall_at: [u64; MAXT],
    /// Local step counts are only valid at switches; this is the global step at which `cur` resumed.
    resumed_at: u64,
    pth: [usize; MAXT],
    rng: Rng,
    now: u64,
    log: Vec<(u64, usize)>,
    scenario_left: usize,
    entropy_rng: Rng,
    clock_rng: Rng,
    hot: [u64; MAXT],
    switched_at: u64,
    requests: u64,
}

static SIM: AtomicPtr<Sim> = AtomicPtr::new(std::ptr::null_mut());
static GO: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static ALL_DONE: AtomicU32 = AtomicU32::new(0);
static ACTIVE: AtomicBool = AtomicBool::new(false);
static ENTROPY: AtomicU64 = AtomicU64::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(0);
static READY: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static TID: Cell<u32> = const { Cell::new(NONE) };
    static MASK: Cell<u32> = const { Cell::new(0) };
}

#[allow(clippy::mut_from_ref)]
fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM.load(Ordering::Relaxed) }
}
#[inline]
fn tid() -> u32 {
    TID.try_with(|t| t.get()).unwrap_or(NONE)
}
#[inline(never)]
pub fn current() -> Option<usize> {
    let t = tid();
    if t == NONE {
        None
    } else {
        Some(t as usize)
    }
}
// Everything below that instrumented crates call is kept out of line: code of the simulator that
// was inlined into them would itself be scheduled.
#[inline(never)]
fn mask_add(n: u32) {
    MASK.with(|m| m.set(m.get().wrapping_add(n)));
}
#[inline(never)]
pub fn mask_swap(n: u32) -> u32 {
    MASK.with(|m| m.replace(n))
}
struct Masked;
impl Drop for Masked {
    #[inline(never)]
    fn drop(&mut self) {
        mask_add(u32::MAX);
    }
}
struct Unmasked(u32);
impl Drop for Unmasked {
    #[inline(never)]
    fn drop(&mut self) {
        mask_swap(self.0);
    }
}
/// Code of the harness itself (building operands, encoding results) runs unscheduled.
pub fn masked<T>(f: impl FnOnce() -> T) -> T {
    mask_add(1);
    let _g = Masked;
    f()
}
/// Opposite of `masked`: code called back from harness code that must be scheduled.
pub fn unmasked<T>(f: impl FnOnce() -> T) -> T {
    let _g = Unmasked(mask_swap(0));
    f()
}

/// Installs the configuration; called in the child before its scenario threads are created.
#[inline(never)]
pub fn setup(cfg: Config) {
    crate::hooks::find_tls();
    crate::hooks::furnish(cfg.envseed);
    ENTROPY.store(cfg.entropy, Ordering::Relaxed);
    CLOCK.store(cfg.clock, Ordering::Relaxed);
    let mut s = Sim {
        cur: 0,
        n: cfg.threads,
        steps: 0,
        next_ev: 0,
        pi: 0,
        state: [State::Unused; MAXT],
        woken: [false; MAXT],
        local: [0; MAXT],
        stall_at: [u64::MAX; MAXT],
        resumed_at: 0,
        pth: [0; MAXT],
        rng: Rng::sub(cfg.hot_seed, 77),
        now: 0,
        log: Vec::with_capacity(4096),
        scenario_left: cfg.threads,
        entropy_rng: Rng::sub(cfg.entropy, 5),
        clock_rng: Rng::sub(cfg.clock, 6),
        hot: [0; MAXT],
        switched_at: 0,
        requests: 0,
        cfg,
    };
    for i in 0..s.n {
        s.state[i] = State::Runnable;
    }
    for &(t, at) in &s.cfg.stalls {
        if t < s.n {
            s.stall_at[t] = s.stall_at[t].min(at.max(1));
        }
    }
    SIM.store(Box::into_raw(Box::new(s)), Ordering::SeqCst);
}

/// Runs the scenario threads to completion and returns the switches that took place.
/// Each `body(t)` runs on its own OS thread.
pub fn run<F: Fn(usize) + Send + Sync + Clone + 'static>(body: F) -> Vec<(u64, usize)> {
    let n = sim().n;
    if n == 0 {
        return vec![];
    }
    let mut hs = vec![];
    for t in 0..n {
        let b = body.clone();
        let mut builder = std::thread::Builder::new();
        if sim().cfg.names != 0 {
            let x = crate::rng::mix(sim().cfg.names ^ t as u64);
            let words = crate::hooks::DICTIONARY.get().map_or(&[][..], |d| d);
            let n = match x % 8 {
                0 => "main".to_string(),
                1 => "worker".to_string(),
                2 | 3 => format!("worker-{}", (x >> 8) % 12),
                4 => ["", "tokio-runtime-worker", "a", "test"][(x >> 8) as usize % 4].to_string(),
                5 if !words.is_empty() => words[(x >> 8) as usize % words.len()].to_string_lossy().into_owned(),
                _ => String::new(),
            };
            if x % 8 < 6 {
                builder = builder.name(n);
            }
        }
        hs.push(
            builder
                .stack_size(8 << 20)
                .spawn(move || {
                    READY.store(t as u32 + 1, Ordering::SeqCst);
                    sys::futex_wake(&READY, 1);
                    enter(t);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b(t)));
                    leave(t, true);
                    drop(b);
                    if r.is_err() {
                        unsafe { sys::_exit(98) }
                    }
                })
                .expect("spawn"),
        );
        // One at a time, so that thread start-up is as repeatable as everything else.
        loop {
            let r = READY.load(Ordering::SeqCst);
            if r == t as u32 + 1 {
                break;
            }
            sys::futex_wait(&READY, r);
        }
    }
    ACTIVE.store(true, Ordering::SeqCst);
    {
        let s = sim();
        s.next_ev = 0;
        s.cur = 0;
    }
    GO[0].store(1, Ordering::SeqCst);
    sys::futex_wake(&GO[0], 1);
    while ALL_DONE.load(Ordering::SeqCst) == 0 {
        sys::futex_wait(&ALL_DONE, 0);
    }
    for h in hs {
        let _ = h.join();
    }
    ACTIVE.store(false, Ordering::SeqCst);
    let s = sim();
    shm().stats[st::STEPS].store(s.steps, Ordering::Relaxed);
    shm().stats[st::SIM_NS].store(s.now + s.steps, Ordering::Relaxed);
    std::mem::take(&mut s.log)
}

fn wait_go(t: usize) {
    while GO[t].load(Ordering::SeqCst) == 0 {
        sys::futex_wait(&GO[t], 0);
    }
    GO[t].store(0, Ordering::SeqCst);
}
fn enter(t: usize) {
    wait_go(t);
    TID.with(|x| x.set(t as u32));
    MASK.with(|m| m.set(0));
}
fn leave(t: usize, scenario: bool) {
    TID.with(|x| x.set(NONE));
    let next = finish(t, scenario);
    match next {
        None => {
            // Threads the library left running are abandoned with the process.
            ALL_DONE.store(1, Ordering::SeqCst);
            sys::futex_wake(&ALL_DONE, i32::MAX as i64);
        }
        Some(nx) => wake(nx),
    }
    // What a thread does to end for good must not happen beside the others.
    while scenario && ALL_DONE.load(Ordering::SeqCst) == 0 {
        sys::futex_wait(&ALL_DONE, 0);
    }
}
// No reference to the simulator's state may be live while another thread is being woken: the
// functions below that touch the state do not wake, and those that wake hold no reference.
#[inline(never)]
fn finish(t: usize, scenario: bool) -> Option<usize> {
    let s = sim();
    account(s);
    s.state[t] = State::Finished;
    for i in 0..s.n {
        if s.state[i] == State::Join(t) {
            s.state[i] = State::Runnable;
        }
    }
    if scenario {
        s.scenario_left -= 1;
    }
    if s.scenario_left == 0 {
        return None;
    }
    let nx = next_runnable(s, t);
    appoint(s, nx);
    Some(nx)
}
fn account(s: &mut Sim) {
    let c = s.cur;
    s.local[c] += s.steps - s.resumed_at;
    s.resumed_at = s.steps;
}
fn appoint(s: &mut Sim, to: usize) {
    bump(st::SWITCHES, 1);
    if s.log.len() < 20000 {
        s.log.push((s.steps, to));
    }
    s.cur = to;
    s.resumed_at = s.steps;
    s.switched_at = s.steps;
    s.next_ev = 0;
}
#[inline(never)]
fn wake(to: usize) {
    std::sync::atomic::fence(Ordering::SeqCst);
    GO[to].store(1, Ordering::SeqCst);
    sys::futex_wake(&GO[to], 1);
}
/// Hands the processor over and waits to get it back.
#[inline(never)]
fn away(t: usize, to: usize) {
    TID.with(|x| x.set(NONE));
    wake(to);
    wait_go(t);
    TID.with(|x| x.set(t as u32));
}
/// The next thread that can run, round-robin after `from`; advances the clock, and finally wakes
/// stalled threads, when nothing can.
fn next_runnable(s: &mut Sim, from: usize) -> usize {
    loop {
        for k in 1..=s.n {
            let i = (from + k) % s.n;
            if s.state[i] == State::Runnable {
                return i;
            }
        }
        // Nothing runnable: jump to the earliest deadline.
        let mut best: Option<(u64, usize)> = None;
        for i in 0..s.n {
            let d = match s.state[i] {
                State::Futex { deadline, .. } if deadline != u64::MAX => deadline,
                State::Sleep(d) => d,
                _ => continue,
            };
            if best.map_or(true, |(b, _)| d < b) {
                best = Some((d, i));
            }
        }
        if let Some((d, i)) = best {
            s.now = s.now.max(d);
            s.woken[i] = false;
            s.state[i] = State::Runnable;
            continue;
        }
        let blocked = (0..s.n).any(|i| matches!(s.state[i], State::Futex { .. } | State::Join(_)));
        let stalled = (0..s.n).find(|&i| s.state[i] == State::Stalled);
        if let Some(i) = stalled {
            if blocked {
                flag(fl::BLOCKED_BY_STALL);
            }
            // Everyone else is done or blocked: let the stalled thread finish after all.
            s.state[i] = State::Runnable;
            s.stall_at[i] = u64::MAX;
            continue;
        }
        flag(fl::DEADLOCK);
        unsafe { sys::_exit(76) };
    }
}
/// Gives up the processor in the given state; returns when rescheduled.
fn block(t: usize, st_: State) {
    if let Some(nx) = leave_as(t, st_) {
        away(t, nx);
        resume(t);
    }
}
#[inline(never)]
fn leave_as(t: usize, st_: State) -> Option<usize> {
    let s = sim();
    account(s);
    s.state[t] = st_;
    let nx = next_runnable(s, t);
    if nx == t {
        s.state[t] = State::Runnable;
        s.resumed_at = s.steps;
        s.next_ev = 0;
        return None;
    }
    appoint(s, nx);
    Some(nx)
}
#[inline(never)]
fn resume(t: usize) {
    sim().state[t] = State::Runnable;
}
fn switch_to(t: usize, to: usize) {
    give(to);
    away(t, to);
}
#[inline(never)]
fn give(to: usize) {
    let s = sim();
    account(s);
    appoint(s, to);
}

#[inline(never)]
pub fn yield_point() {
    let t = tid();
    if t == NONE || MASK.with(|m| m.get()) != 0 {
        return;
    }
    let s = sim();
    s.steps += 1;
    if s.steps >= s.next_ev {
        slow(t as usize);
    }
}
enum Do {
    Nothing,
    Stall,
    Switch(usize),
    Audit(fn() -> bool),
}
#[cold]
#[inline(never)]
fn slow(t: usize) {
    loop {
        match decide(t) {
            Do::Nothing => break,
            Do::Stall => block(t, State::Stalled),
            Do::Switch(to) => switch_to(t, to),
            Do::Audit(a) => {
                bump(st::AUDITS, 1);
                if !masked(a) {
                    flag(fl::AUDIT_FAILED);
                }
                if let Some(to) = after_audit(t) {
                    switch_to(t, to);
                }
            }
        }
    }
    plan_next(t);
}
#[inline(never)]
fn decide(t: usize) -> Do {
    let s = sim();
    if s.steps >= s.cfg.step_cap {
        shm().stats[st::STEPS].store(s.steps, Ordering::Relaxed);
        flag(fl::CAPPED);
        unsafe { sys::_exit(77) };
    }
    account(s);
    if s.local[t] >= s.stall_at[t] && s.n > 1 {
        s.stall_at[t] = u64::MAX;
        bump(st::STALLS, 1);
        return Do::Stall;
    }
    if s.pi < s.cfg.preempts.len() && s.cfg.preempts[s.pi].0 <= s.steps {
        if let Some(a) = s.cfg.audit {
            return Do::Audit(a);
        }
        return match take_preempt(s, t) {
            Some(to) => Do::Switch(to),
            None => decide_quantum(s, t),
        };
    }
    decide_quantum(s, t)
}
#[inline(never)]
fn after_audit(t: usize) -> Option<usize> {
    take_preempt(sim(), t)
}
fn take_preempt(s: &mut Sim, t: usize) -> Option<usize> {
    let want = s.cfg.preempts[s.pi].1 % s.n.max(1);
    s.pi += 1;
    bump(st::PREEMPTS, 1);
    (0..s.n).map(|k| (want + k) % s.n).find(|&i| s.state[i] == State::Runnable).filter(|&to| to != t)
}
fn decide_quantum(s: &mut Sim, t: usize) -> Do {
    if s.cfg.quantum != 0 && s.n > 1 && s.steps - s.switched_at >= s.cfg.quantum {
        s.switched_at = s.steps;
        if let Some(to) = (1..s.n).map(|k| (t + k) % s.n).find(|&i| s.state[i] == State::Runnable) {
            if to != t {
                return Do::Switch(to);
            }
        }
    }
    Do::Nothing
}
#[inline(never)]
fn plan_next(t: usize) {
    schedule_next(sim(), t)
}
fn schedule_next(s: &mut Sim, t: usize) {
    let mut n = s.cfg.step_cap;
    if s.pi < s.cfg.preempts.len() {
        n = n.min(s.cfg.preempts[s.pi].0.max(s.steps + 1));
    }
    if s.stall_at[t] != u64::MAX {
        n = n.min((s.steps + s.stall_at[t].saturating_sub(s.local[t])).max(s.steps + 1));
    }
    if s.cfg.quantum != 0 && s.n > 1 {
        n = n.min(s.switched_at + s.cfg.quantum).max(s.steps + 1);
    }
    s.next_ev = n;
}
/// A yield point at an access to static or thread-local memory: a preferred place to switch.
#[inline(never)]
pub fn hot_point() {
    let t = tid();
    if t == NONE || MASK.with(|m| m.get()) != 0 {
        return;
    }
    bump(st::HOT, 1);
    match decide_hot(t as usize) {
        Do::Stall => {
            bump(st::STALLS, 1);
            block(t as usize, State::Stalled);
        }
        Do::Switch(to) => {
            bump(st::PREEMPTS, 1);
            switch_to(t as usize, to);
        }
        _ => {}
    }
}
#[inline(never)]
fn decide_hot(me: usize) -> Do {
    let s = sim();
    s.hot[me] += 1;
    if !s.cfg.stall_hot.is_empty() && s.n > 1 && s.cfg.stall_hot.contains(&(me, s.hot[me])) {
        return Do::Stall;
    }
    if s.cfg.hot_pct != 0 && s.n > 1 && s.rng.below(100) < s.cfg.hot_pct {
        let start = s.rng.us(s.n);
        if let Some(to) = (0..s.n).map(|k| (start + k) % s.n).find(|&i| i != me && s.state[i] == State::Runnable) {
            return Do::Switch(to);
        }
    }
    Do::Nothing
}
#[inline(never)]
pub fn steps() -> u64 {
    if current().is_some() {
        sim().steps
    } else {
        0
    }
}

/// A number drawn from the configured environment for `what`, if this is scheduled library code.
#[inline(never)]
pub fn environment(what: &[u8]) -> Option<u64> {
    current()?;
    if MASK.with(|m| m.get()) != 0 {
        return None;
    }
    bump(st::ENV_READS, 1);
    let e = sim().cfg.envseed;
    if e == 0 {
        return Some(0);
    }
    let (a, b) = crate::rng::hash128(what);
    Some(crate::rng::mix(a ^ b.rotate_left(9) ^ e) | 1)
}

/// Threads other than the scenario's that have not ended.
#[inline(never)]
pub fn extra_threads() -> usize {
    if current().is_none() {
        return 0;
    }
    let s = sim();
    (s.cfg.threads..s.n).filter(|&i| s.state[i] != State::Finished && s.state[i] != State::Unused).count()
}
/// Scheduled library code asks the operating system for something. If it is refused, a number from
/// which the manner of refusing is drawn.
#[inline(never)]
pub fn request() -> Option<u64> {
    current()?;
    if MASK.with(|m| m.get()) == 0 {
        bump(st::OTHER_REQUESTS, 1);
    }
    request_entropy()
}
/// The same for entropy, which hash tables ask for every so often.
#[inline(never)]
pub fn request_entropy() -> Option<u64> {
    current()?;
    if MASK.with(|m| m.get()) != 0 {
        return None;
    }
    bump(st::REQUESTS, 1);
    let s = sim();
    s.requests += 1;
    let (first, many, seed) = s.cfg.refuse;
    if first == 0 || s.requests < first || s.requests - first >= many {
        return None;
    }
    bump(st::REFUSALS, 1);
    Some(crate::rng::mix(seed ^ s.requests << 32))
}

// --- what the operating system would have done --------------------------------------------------

#[inline(never)]
pub fn entropy(buf: &mut [u8]) {
    bump(st::ENTROPY_READS, 1);
    if current().is_some() {
        let s = sim();
        for b in buf.iter_mut() {
            *b = s.entropy_rng.next() as u8;
        }
    } else {
        // Outside the scheduled threads: same stream family, still a function of the configuration.
        let k = ENTROPY.fetch_add(0x9e37, Ordering::Relaxed);
        let mut r = Rng::sub(k, 9);
        for b in buf.iter_mut() {
            *b = r.next() as u8;
        }
    }
}
/// Simulated nanoseconds: one per step, plus what sleeping threads waited, plus - when the run has
/// an unreliable clock - jumps in either direction.
#[inline(never)]
pub fn clock() -> Option<u64> {
    current()?;
    bump(st::CLOCK_READS, 1);
    let s = sim();
    let base = 1_600_000_000_000_000_000u64;
    let mut t = base.wrapping_add(s.now + s.steps);
    if s.cfg.clock != 0 {
        t = base.wrapping_add(s.clock_rng.below(1 << 60));
    }
    Some(t)
}
#[inline(never)]
pub fn futex_wait(addr: usize, val: u32, bits: u32, timeout_ns: Option<u64>, absolute: bool) -> i32 {
    let t = tid() as usize;
    let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur != val {
        return 11; // EAGAIN
    }
    bump(st::FUTEX_WAITS, 1);
    let s = sim();
    if s.cfg.spurious_pct != 0 && s.rng.below(100) < s.cfg.spurious_pct {
        bump(st::SPURIOUS, 1);
        return 0;
    }
    let now = s.now + s.steps;
    let deadline = match timeout_ns {
        None => u64::MAX,
        Some(d) if absolute => d.saturating_sub(1_600_000_000_000_000_000),
        Some(d) => now.saturating_add(d),
    };
    s.woken[t] = false;
    block(t, State::Futex { addr, bits, deadline });
    if sim().woken[t] {
        0
    } else {
        110 // ETIMEDOUT
    }
}
#[inline(never)]
pub fn futex_wake(addr: usize, bits: u32, n: u32) -> i64 {
    bump(st::FUTEX_WAKES, 1);
    let s = sim();
    let mut k = 0;
    for i in 0..s.n {
        if k >= n as i64 {
            break;
        }
        if let State::Futex { addr: a, bits: b, .. } = s.state[i] {
            if a == addr && b & bits != 0 {
                s.state[i] = State::Runnable;
                s.woken[i] = true;
                k += 1;
            }
        }
    }
    k
}
#[inline(never)]
pub fn sleep(ns: u64) {
    bump(st::SLEEPS, 1);
    let t = tid() as usize;
    let s = sim();
    let d = s.now + s.steps + ns;
    block(t, State::Sleep(d));
}
#[inline(never)]
pub fn relinquish() {
    let t = tid() as usize;
    let s = sim();
    s.steps += 1;
    for k in 1..s.n {
        let i = (t + k) % s.n;
        if s.state[i] == State::Runnable {
            switch_to(t, i);
            break;
        }
    }
    yield_point();
}
/// A thread created by simulated code becomes a simulated thread.
#[inline(never)]
pub fn register_thread() -> Option<usize> {
    let s = sim();
    bump(st::LIB_THREADS, 1);
    let free = (s.cfg.threads..s.n).find(|&i| s.state[i] == State::Finished && s.pth[i] == 0);
    if free.is_none() && s.n >= MAXT {
        return None;
    }
    let t = free.unwrap_or(s.n);
    s.n = s.n.max(t + 1);
    s.local[t] = 0;
    s.state[t] = State::Runnable;
    Some(t)
}
#[inline(never)]
pub fn unregister_thread(t: usize) {
    sim().state[t] = State::Finished;
}
#[inline(never)]
pub fn set_pthread(t: usize, p: usize) {
    sim().pth[t] = p;
}
pub fn thread_main(t: usize, f: impl FnOnce() -> usize) -> usize {
    enter(t);
    let r = f();
    leave(t, false);
    r
}
#[inline(never)]
pub fn join(p: usize) {
    let t = tid() as usize;
    let s = sim();
    if let Some(i) = (0..s.n).find(|&i| s.pth[i] == p && s.pth[i] != 0) {
        s.pth[i] = 0;
        if s.state[i] != State::Finished {
            block(t, State::Join(i));
        }
    }
}
/// In a forked child: the calling thread is the only one left.
#[inline(never)]
pub fn alone() {
    let t = tid() as usize;
    let s = sim();
    for i in 0..s.n {
        if i != t {
            s.state[i] = State::Finished;
        }
    }
    s.cfg.preempts.clear();
    s.pi = 0;
}
