//! C13: the shipped program, run for real with standard output, entropy and allocation behind a
//! preloaded shim that follows a seeded plan.
use crate::case::Case;
use crate::ctx::{clip, harness_error, Ctx, Verdict};
use simrt::rng::{hash128, mix, Rng};
use simrt::shm::st;
use simrt::sys;
use std::collections::HashMap;
use std::process::{Command, Stdio};
use std::sync::Mutex;

const PLAN: usize = 256;
const FIXED: usize = 6;
const WORDS: usize = FIXED + 2 * PLAN + 10;
const CAPPED: usize = 8;
const ERRNOS: [i64; 8] = [28, 5, 32, 11, 122, 27, 12, 105];

#[derive(Clone, Debug)]
struct Out {
    code: Option<i32>,
    text: Vec<u8>,
    /// writes, shorts, eintrs, errors, zeros, allocs failed, entropy reads, stderr errors, capped, allocs
    counts: [u64; 10],
    signal: i32,
}
static SHARED: Mutex<Option<(usize, i32)>> = Mutex::new(None);
static FULL: Mutex<Option<HashMap<(u64, u64), Option<Out>>>> = Mutex::new(None);

fn shared() -> (*mut u64, i32) {
    let mut g = SHARED.lock().unwrap();
    let (a, fd) = *g.get_or_insert_with(|| unsafe {
        // One block per worker process: made after the fork.
        let fd = sys::raw_syscall(319, b"algeo-shim\0".as_ptr() as i64, 0, 0, 0, 0, 0) as i32;
        if fd < 0 || sys::raw_syscall(77, fd as i64, (WORDS * 8) as i64, 0, 0, 0, 0) != 0 {
            harness_error("no shared memory for the shim");
        }
        let p = sys::mmap(std::ptr::null_mut(), WORDS * 8, 3, 1, fd, 0);
        (p as usize, fd)
    });
    (a as *mut u64, fd)
}
fn paths() -> (String, String) {
    let home = std::env::var("VERIF_HOME").unwrap_or_else(|_| "/verif".into());
    (format!("{}/.build/cli/debug/algeo", home), format!("{}/.build/shim.so", home))
}
fn exec(ctx: &mut Ctx, fixed: [u64; 5], plan: &[(u64, u64)]) -> Out {
    let (m, fd) = shared();
    unsafe {
        for i in 0..WORDS {
            m.add(i).write_volatile(0);
        }
        let n = plan.len().min(PLAN);
        m.write_volatile(n as u64);
        for i in 0..5 {
            m.add(1 + i).write_volatile(fixed[i]);
        }
        for i in 0..n {
            m.add(FIXED + i).write_volatile(plan[i].0);
            m.add(FIXED + PLAN + i).write_volatile(plan[i].1);
        }
    }
    let (bin, shim) = paths();
    let o = Command::new(&bin)
        .env_clear()
        .env("LD_PRELOAD", &shim)
        .env("ALGEO_SHIM_FD", fd.to_string())
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .output();
    let o = match o {
        Ok(o) => o,
        Err(e) => harness_error(&format!("cannot run {}: {}", bin, e)),
    };
    ctx.totals.children += 1;
    let mut counts = [0; 10];
    for (i, c) in counts.iter_mut().enumerate() {
        *c = unsafe { m.add(FIXED + 2 * PLAN + i).read_volatile() };
    }
    use std::os::unix::process::ExitStatusExt;
    if o.status.code() == Some(98) {
        harness_error("the shim could not map its plan");
    }
    if o.status.code() != Some(0) {
        ctx.totals.crashed_children += 1;
    }
    Out { code: o.status.code(), text: o.stdout, counts, signal: o.status.signal().unwrap_or(0) }
}
/// The whole output: what the same binary prints when nothing goes wrong.
fn full(ctx: &mut Ctx, entropy: u64, tty: u64) -> Option<Out> {
    if let Some(x) = FULL.lock().unwrap().get_or_insert_with(HashMap::new).get(&(entropy, tty)) {
        return x.clone();
    }
    ctx.totals.baselines += 1;
    let o = exec(ctx, [entropy, 0, 0, 0, tty], &[]);
    let x = if o.code == Some(0) { Some(o) } else { None };
    FULL.lock().unwrap().as_mut().unwrap().insert((entropy, tty), x.clone());
    x
}

pub fn gen(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut c = Case::new("C13");
    let entropy = 1 + r.below(8);
    let tty = r.chance(30, 100) as u64;
    c.set("entropy", entropy as i64);
    c.set("tty", tty as i64);
    let (bytes, allocs, writes) = full(ctx, entropy, tty).map_or((20, 20, 2), |f| (f.text.len().max(1) as u64, f.counts[9].max(1), f.counts[0].max(1)));
    if r.chance(20, 100) {
        c.set("fail_from", r.below(allocs + 2) as i64);
        c.set("fail_count", if r.chance(50, 100) { 1 } else { 1 << 40 });
    }
    if r.chance(15, 100) {
        c.set("stderr_errno", *r.pick(&ERRNOS));
    }
    // Shape of the plan: soft faults throughout, then perhaps something worse.
    let n = match r.below(4) {
        0 => 0,
        1 => r.below(writes + 2),
        2 => r.below(12),
        _ => r.below(bytes + 60).min(200),
    };
    let (short, eintr) = (r.below(100), r.below(60));
    let max = [1, 2, 5, bytes][r.below(4) as usize];
    for _ in 0..n {
        if r.chance(eintr, 100) {
            c.push("write", vec![2]);
        } else if r.chance(short, 100) {
            c.push("write", vec![1, 1 + r.below(max) as i64]);
        } else {
            c.push("write", vec![0]);
        }
    }
    match r.below(8) {
        0 | 1 | 2 => {}
        3 => c.push("write", vec![5]),
        4 | 5 => c.push("write", vec![3, *r.pick(&ERRNOS)]),
        _ => c.push("write", vec![4, *r.pick(&ERRNOS)]),
    }
    // After a passing failure more may follow.
    if c.items.last().map_or(false, |i| i.g(0) == 3 || i.g(0) == 5) && r.chance(50, 100) {
        for _ in 0..1 + r.below(4) {
            match r.below(4) {
                0 => c.push("write", vec![2]),
                1 => c.push("write", vec![1, 1 + r.below(4) as i64]),
                2 => c.push("write", vec![0]),
                _ => c.push("write", vec![3, *r.pick(&ERRNOS)]),
            }
        }
    }
    c
}

pub fn run(ctx: &mut Ctx, c: &Case) -> Verdict {
    let (entropy, tty) = (c.u("entropy"), c.u("tty"));
    let Some(whole) = full(ctx, entropy, tty) else {
        return Verdict::discard();
    };
    let plan: Vec<(u64, u64)> = c.of("write").map(|i| (i.g(0).clamp(0, 5) as u64, i.g(1).max(0) as u64)).collect();
    // An error number of zero is no error.
    let plan: Vec<(u64, u64)> = plan.into_iter().map(|(k, a)| if (k == 3 || k == 4) && !ERRNOS.contains(&(a as i64)) { (k, 5) } else { (k, a) }).collect();
    let o = exec(ctx, [entropy, c.u("fail_from"), c.u("fail_count"), c.u("stderr_errno"), tty], &plan);
    let [writes, shorts, eintrs, errors, zeros, starved, reads, err2, ..] = o.counts;
    let s = &mut ctx.totals.stats;
    s[st::SHORT_WRITES] += shorts;
    s[st::EINTRS] += eintrs;
    s[st::WRITE_ERRORS] += errors + zeros;
    s[st::ALLOC_FAILS] += starved;
    s[st::ENTROPY_READS] += reads;
    s[st::SINK_ERRORS] += err2;
    s[st::STEPS] += writes;
    let hard = errors + zeros + starved;
    let endless = plan.last().map_or(false, |p| p.0 == 4) && errors > 0;
    let complete = o.text == whole.text;
    let shown = || format!("delivered {:?} of {:?}", clip(&String::from_utf8_lossy(&o.text)), clip(&String::from_utf8_lossy(&whole.text)));
    let hung = o.counts[CAPPED] != 0 || o.signal == 24 || o.signal == 14 || o.signal == 9;
    let mut v = Verdict::ok(0);
    if o.code == Some(0) && !complete {
        v = Verdict::bad("false-success", format!("the program exited with status 0 after {} failed writes, but {}", errors + zeros, shown()));
    } else if hung && !endless {
        v = Verdict::bad("hang", format!("the program did not finish although the faults stopped; {}", shown()));
    } else if hard == 0 && !complete {
        v = Verdict::bad("lost-output", format!("only short or interrupted writes happened, but {}", shown()));
    } else if hard == 0 && o.code != Some(0) {
        v = Verdict::bad("false-failure", format!("only short or interrupted writes happened, but the program ended with {:?} (signal {})", o.code, o.signal));
    } else if !whole.text.starts_with(&o.text) {
        v = Verdict::bad("garbled", format!("after an error, {}", shown()));
    }
    let end = format!("{:?} {} {:?} {:?}", o.code, o.signal, o.text, o.counts);
    v.log = mix(hash128(end.as_bytes()).0 ^ hash128(format!("{:?}", plan).as_bytes()).0);
    v.nontrivial = shorts + eintrs + errors + zeros + starved > 0;
    v
}
