//! Memory shared between a worker and the child process it forks for each simulated run, so that
//! whatever a run established survives its crash.
use crate::sys;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub const OUT_CAP: usize = 8 << 20;
pub const NSTAT: usize = 64;
pub const NEDGE: usize = 1 << 17;

#[repr(C)]
pub struct Shm {
    pub len: AtomicU64,
    pub stats: [AtomicU64; NSTAT],
    pub flags: AtomicU64,
}
/// Counters of what actually happened in a run.
pub mod st {
    pub const STEPS: usize = 0;
    pub const SWITCHES: usize = 1;
    pub const PREEMPTS: usize = 2;
    pub const PANICS: usize = 3;
    pub const STALLS: usize = 4;
    pub const FUTEX_WAITS: usize = 5;
    pub const FUTEX_WAKES: usize = 6;
    pub const ENTROPY_READS: usize = 7;
    pub const CLOCK_READS: usize = 8;
    pub const ALLOC_FAILS: usize = 9;
    pub const NESTED: usize = 10;
    pub const SINK_ERRORS: usize = 11;
    pub const HOT: usize = 12;
    pub const AUDITS: usize = 13;
    pub const SLEEPS: usize = 14;
    pub const LIB_THREADS: usize = 15;
    pub const NATURAL_PANICS: usize = 16;
    pub const CALLBACKS: usize = 17;
    pub const SINK_PANICS: usize = 18;
    pub const ABANDONED: usize = 19;
    pub const PIVOT_CHOICES: usize = 20;
    pub const CALLS: usize = 21;
    pub const SIM_NS: usize = 22;
    pub const ENV_SETS: usize = 23;
    pub const RESUMES: usize = 24;
    pub const EDITS: usize = 25;
    pub const FORKS: usize = 26;
    pub const ENUM_STEPS: usize = 27;
    pub const SPURIOUS: usize = 28;
    pub const SHORT_WRITES: usize = 29;
    pub const EINTRS: usize = 30;
    pub const WRITE_ERRORS: usize = 31;
    pub const ENV_READS: usize = 32;
    pub const ODD_MOMENTS: usize = 33;
    pub const WRONG_ANSWERS: usize = 34;
    pub const REQUESTS: usize = 35;
    pub const REFUSALS: usize = 36;
    pub const OTHER_REQUESTS: usize = 37;
    pub const NAMES: [&str; 38] = [
        "sim_steps", "context_switches", "preemptions", "injected_panics", "stalled_threads", "futex_waits", "futex_wakes",
        "entropy_reads", "clock_reads", "failed_allocations", "nested_calls", "sink_errors", "static_memory_accesses",
        "mid_call_audits", "sleeps", "threads_spawned_by_library", "natural_panics", "callbacks", "sink_panics",
        "abandoned_enumerations", "pivot_choices", "library_calls", "simulated_ns", "environments", "resumed_after_interruption",
        "in_place_edits", "processes_forked", "enumeration_steps", "spurious_wakeups", "short_writes", "interrupted_writes",
        "write_errors", "environment_reads", "odd_moments",
        "wrong_answers", "system_requests", "refused_system_requests", "system_requests_other_than_entropy",
    ];
}
/// Conditions noted by the scheduler.
pub mod fl {
    pub const CAPPED: u64 = 1;
    pub const DEADLOCK: u64 = 2;
    pub const BLOCKED_BY_STALL: u64 = 4;
    pub const AUDIT_FAILED: u64 = 8;
    /// Memory outside of a live block was written to.
    pub const HEAP: u64 = 16;
}

static mut SHM: *mut Shm = std::ptr::null_mut();
static mut OUT: *mut u8 = std::ptr::null_mut();
static mut EDGES: *mut u8 = std::ptr::null_mut();

/// Called once per worker process, before any run. `edges` may be shared between workers.
#[inline(never)]
pub fn init(edges: *mut u8) {
    unsafe {
        SHM = sys::map_shared(std::mem::size_of::<Shm>()) as *mut Shm;
        OUT = sys::map_shared(OUT_CAP);
        EDGES = edges;
    }
}
#[inline(never)]
pub fn shm() -> &'static Shm {
    unsafe { &*SHM }
}
#[inline(never)]
pub fn ready() -> bool {
    unsafe { !SHM.is_null() }
}
#[inline(never)]
pub fn edges() -> *mut u8 {
    unsafe { EDGES }
}
#[inline(never)]
pub fn bump(i: usize, n: u64) {
    if ready() {
        shm().stats[i].fetch_add(n, Relaxed);
    }
}
#[inline(never)]
pub fn flag(f: u64) {
    if ready() {
        shm().flags.fetch_or(f, Relaxed);
    }
}
/// Appends a record; visible to the parent even if the process dies right afterwards.
#[inline(never)]
pub fn emit(rec: &[u8]) {
    let s = shm();
    let at = s.len.load(Relaxed) as usize;
    if at + rec.len() + 4 > OUT_CAP {
        return;
    }
    unsafe {
        std::ptr::copy_nonoverlapping((rec.len() as u32).to_le_bytes().as_ptr(), OUT.add(at), 4);
        std::ptr::copy_nonoverlapping(rec.as_ptr(), OUT.add(at + 4), rec.len());
    }
    s.len.store((at + 4 + rec.len()) as u64, Relaxed);
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Signal(i32),
}
pub struct RunOut {
    pub end: End,
    pub flags: u64,
    pub stats: [u64; NSTAT],
    pub recs: Vec<Vec<u8>>,
}

/// Runs `f` in a forked child - a pristine process as far as the library is concerned, since the
/// worker itself never calls it - and collects what it emitted.
pub fn run_child(f: impl FnOnce()) -> RunOut {
    let s = shm();
    s.len.store(0, Relaxed);
    s.flags.store(0, Relaxed);
    for x in s.stats.iter() {
        x.store(0, Relaxed);
    }
    let noisy = std::env::var_os("ALGEO_SIM_STDERR").is_some();
    let pid = unsafe { sys::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            sys::prctl(1 /* PR_SET_PDEATHSIG */, 9, 0, 0, 0);
            sys::alarm(30);
            if !noisy { sys::dup2(sys::open_null(), 2); }
        }
        std::panic::set_hook(Box::new(move |i| {
            crate::calls::HOOKED.fetch_add(1, Relaxed);
            if noisy {
                eprintln!("{}", i);
            }
        }));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        unsafe { sys::_exit(if r.is_ok() { 0 } else { 99 }) }
    }
    let mut status = 0;
    loop {
        let r = unsafe { sys::waitpid(pid, &mut status, 0) };
        if r == pid {
            break;
        }
    }
    let end = if status & 0x7f == 0 { End::Exit((status >> 8) & 0xff) } else { End::Signal(status & 0x7f) };
    let mut stats = [0; NSTAT];
    for (a, b) in stats.iter_mut().zip(s.stats.iter()) {
        *a = b.load(Relaxed);
    }
    stats[st::FORKS] += 1;
    let len = s.len.load(Relaxed) as usize;
    let all = unsafe { std::slice::from_raw_parts(OUT, len) };
    let mut recs = vec![];
    let mut i = 0;
    while i + 4 <= len {
        let n = u32::from_le_bytes([all[i], all[i + 1], all[i + 2], all[i + 3]]) as usize;
        recs.push(all[i + 4..i + 4 + n].to_vec());
        i += 4 + n;
    }
    RunOut { end, flags: s.flags.load(Relaxed), stats, recs }
}
