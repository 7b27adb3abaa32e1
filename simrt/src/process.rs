//! What a process and a thread of it look like from the outside: everything a call could leave
//! behind other than its result.
use crate::rng::hash128;
use crate::sys::raw_syscall;
use std::ffi::CStr;

pub type Facts = Vec<(&'static str, u64)>;
extern "C" {
    static environ: *const *const i8;
    fn setlocale(category: i32, locale: *const i8) -> *const i8;
}
fn fold(h: &mut u64, x: u64) {
    *h = crate::rng::mix(*h ^ x);
}
fn call(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    unsafe { raw_syscall(n, a, b, c, d, 0, 0) }
}
/// What belongs to the process as a whole and concerns every thread at every moment.
pub fn whole() -> Facts {
    let mut v: Facts = vec![];
    unsafe {
        let mut h = 0;
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            fold(&mut h, hash128(CStr::from_ptr(*p).to_bytes()).0);
            p = p.add(1);
        }
        v.push(("environment variables", h));
        let mut buf = [0u8; 512];
        let n = call(79, buf.as_mut_ptr() as i64, 512, 0, 0);
        v.push(("working directory", hash128(&buf[..n.max(0) as usize]).0));
        let mask = call(95, 0, 0, 0, 0);
        call(95, mask, 0, 0, 0);
        v.push(("file mode mask", mask as u64));
        let mut h = 0;
        for s in 1..=64 {
            let mut act = [0u64; 4];
            call(13, s, 0, act.as_mut_ptr() as i64, 8);
            act.iter().for_each(|x| fold(&mut h, *x));
        }
        v.push(("signal handlers", h));
        let mut h = 0;
        for r in 0..16 {
            let mut lim = [0u64; 2];
            call(302, 0, r, 0, lim.as_mut_ptr() as i64);
            lim.iter().for_each(|x| fold(&mut h, *x));
        }
        v.push(("resource limits", h));
        let mut h = 0;
        for t in 0..3 {
            let mut it = [0u64; 4];
            call(36, t, it.as_mut_ptr() as i64, 0, 0);
            fold(&mut h, (it[2] | it[3] != 0) as u64 + 2 * (it[0] | it[1] != 0) as u64);
        }
        v.push(("interval timers", h));
        let mut h = 0;
        for op in [3, 37, 39] {
            fold(&mut h, call(157, op, 0, 0, 0) as u64);
        }
        let mut sig = 0i32;
        call(157, 2, &mut sig as *mut i32 as i64, 0, 0);
        fold(&mut h, sig as u64);
        for n in [102, 104, 107, 108, 111, 124] {
            fold(&mut h, call(n, 0, 0, 0, 0) as u64);
        }
        v.push(("process attributes", h));
        let l = setlocale(6, std::ptr::null());
        v.push(("locale", if l.is_null() { 0 } else { hash128(CStr::from_ptr(l).to_bytes()).0 }));
        for (fd, what) in [(0, "standard input"), (1, "standard output"), (2, "standard error")] {
            let mut h = call(8, fd, 0, 1, 0) as u64;
            fold(&mut h, call(72, fd, 1, 0, 0) as u64);
            fold(&mut h, call(72, fd, 3, 0, 0) as u64);
            let mut st = [0u64; 18];
            call(5, fd, st.as_mut_ptr() as i64, 0, 0);
            fold(&mut h, st[0]);
            fold(&mut h, st[1]);
            fold(&mut h, st[6]);
            v.push((what, h));
        }
        if !std::thread::panicking() {
            let hook = std::panic::take_hook();
            let raw: (usize, usize) = std::mem::transmute(Box::into_raw(hook));
            v.push(("panic hook", raw.0 as u64 ^ (raw.1 as u64) << 20));
            let hook: *mut (dyn Fn(&std::panic::PanicHookInfo<'_>) + Send + Sync) = std::mem::transmute(raw);
            std::panic::set_hook(Box::from_raw(hook));
        }
    }
    v
}
/// What calls may have for themselves while they run.
pub fn belongings() -> Facts {
    let mut v: Facts = vec![];
    let mut h = 0;
    for fd in 3..128 {
        let r = call(72, fd, 1, 0, 0);
        if r >= 0 {
            fold(&mut h, (fd as u64) << 8 | r as u64);
        }
    }
    v.push(("open files", h));
    let mut info = [0u64; 16];
    let r = call(247, 0, 0, info.as_mut_ptr() as i64, 4 | 1 | 0x0100_0000);
    v.push(("child processes", r as u64));
    v.push(("threads", crate::sched::extra_threads() as u64));
    v
}
/// What belongs to the calling thread.
pub fn thread() -> Facts {
    let mut v: Facts = vec![];
    unsafe {
        let (mut mx, mut cw) = (0u32, 0u16);
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut mx, options(nostack));
        std::arch::asm!("fnstcw [{}]", in(reg) &mut cw, options(nostack));
        v.push(("floating-point mode", (mx & 0xffc0) as u64 | (cw as u64) << 32));
        let mut set = 0u64;
        call(14, 0, 0, &mut set as *mut u64 as i64, 8);
        v.push(("signal mask", set));
        let mut ss = [0u64; 3];
        call(131, 0, ss.as_mut_ptr() as i64, 0, 0);
        v.push(("signal stack", hash128(format!("{:?}", ss).as_bytes()).0));
        let mut name = [0u8; 16];
        call(157, 16, name.as_mut_ptr() as i64, 0, 0);
        v.push(("thread name", hash128(&name).0));
        let mut cpus = [0u64; 16];
        let n = call(204, 0, 128, cpus.as_mut_ptr() as i64, 0);
        let mut h = n as u64;
        cpus.iter().for_each(|x| fold(&mut h, *x));
        fold(&mut h, call(145, 0, 0, 0, 0) as u64);
        fold(&mut h, call(140, 0, 0, 0, 0) as u64);
        fold(&mut h, call(157, 30, 0, 0, 0) as u64);
        v.push(("scheduling attributes", h));
    }
    v
}
pub fn difference(a: &Facts, b: &Facts) -> Option<&'static str> {
    a.iter().find(|x| b.iter().any(|y| y.0 == x.0 && y.1 != x.1)).map(|x| x.0)
}
/// Standard input, output and error become files of their own, in this (child) process only.
pub fn own_streams() {
    for fd in 0..3 {
        let f = call(319, b"stream\0".as_ptr() as i64, 0, 0, 0);
        if f >= 0 {
            if fd == 0 {
                call(1, f, b"input\n".as_ptr() as i64, 6, 0);
                call(8, f, 0, 0, 0);
            }
            call(33, f, fd, 0, 0);
            call(3, f, 0, 0, 0);
        }
    }
}
