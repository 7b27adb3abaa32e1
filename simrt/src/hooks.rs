//! Symbols the simulator takes over: compiler-inserted coverage callbacks (instrumented crates
//! only) and the libc entry points through which a Rust program reaches the outside world.
use crate::sched;
use crate::shm;
use crate::sys;
use std::sync::atomic::{
    AtomicUsize,
    Ordering::{Relaxed, SeqCst},
};

static NGUARD: AtomicUsize = AtomicUsize::new(0);
pub fn guards() -> usize {
    NGUARD.load(Relaxed)
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        *a = NGUARD.fetch_add(1, Relaxed) as u32 + 1;
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if sched::current().is_none() {
        return;
    }
    let e = shm::edges();
    let i = *g as usize;
    if !e.is_null() && i < shm::NEDGE && *e.add(i) == 0 {
        *e.add(i) = 1;
    }
    sched::yield_point();
}

static TLS: AtomicUsize = AtomicUsize::new(0);
/// Size of this executable's thread-local block, which ends at the thread pointer.
pub fn find_tls() {
    unsafe {
        let ph = sys::getauxval(3) as *const u8;
        let (sz, n) = (sys::getauxval(4) as usize, sys::getauxval(5) as usize);
        for i in 0..n {
            let h = ph.add(i * sz);
            if *(h as *const u32) == 7 {
                let (mem, align) = (*(h.add(40) as *const usize), *(h.add(48) as *const usize));
                TLS.store((mem + align.max(1) - 1) / align.max(1) * align.max(1), Relaxed);
            }
        }
    }
}
#[inline]
fn access(p: usize) {
    if sched::current().is_none() {
        return;
    }
    let lo = unsafe { &sys::__data_start as *const u8 as usize };
    let hi = unsafe { &sys::_end as *const u8 as usize };
    let fs: usize;
    unsafe { std::arch::asm!("mov {}, fs:0", out(reg) fs, options(nostack, readonly)) };
    if (p >= lo && p < hi) || (p < fs && fs - p <= TLS.load(Relaxed)) {
        sched::yield_point();
        sched::hot_point();
    } else {
        sched::yield_point();
    }
}
macro_rules! accesses {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(p: *const u8) { access(p as usize) }
    )* };
}
accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

/// Atomic operations are synchronisation wherever the memory lies.
fn atomic() {
    if sched::current().is_some() {
        sched::yield_point();
        sched::hot_point();
    }
}
macro_rules! atomics {
    ($($t:ident $a:ident: $load:ident $store:ident $swap:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, _o: i32) -> $t {
            atomic();
            std::sync::atomic::$a::from_ptr(p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _o: i32) {
            atomic();
            std::sync::atomic::$a::from_ptr(p).store(v, SeqCst)
        }
        atomics!(@rmw $t $a $swap swap);
        atomics!(@rmw $t $a $add fetch_add);
        atomics!(@rmw $t $a $sub fetch_sub);
        atomics!(@rmw $t $a $and fetch_and);
        atomics!(@rmw $t $a $or fetch_or);
        atomics!(@rmw $t $a $xor fetch_xor);
        atomics!(@rmw $t $a $nand fetch_nand);
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, old: $t, new: $t, _o: i32, _f: i32) -> $t {
            atomic();
            match std::sync::atomic::$a::from_ptr(p).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
    )* };
    (@rmw $t:ident $a:ident $n:ident $f:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *mut $t, v: $t, _o: i32) -> $t {
            atomic();
            std::sync::atomic::$a::from_ptr(p).$f(v, SeqCst)
        }
    };
}
atomics! {
    u8 AtomicU8: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16 AtomicU16: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32 AtomicU32: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64 AtomicU64: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    atomic();
    std::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_pc: *const u8) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}

unsafe fn set_errno(e: i32) -> i64 {
    *sys::__errno_location() = e;
    -1
}
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32)
    } else {
        r
    }
}
unsafe fn ts_ns(p: *const [i64; 2]) -> u64 {
    let t = &*p;
    (t[0].max(0) as u64).saturating_mul(1_000_000_000).saturating_add(t[1].max(0) as u64)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if sched::current().is_some() {
        match n {
            202 => {
                let op = b as i32 & 127;
                let (addr, val) = (a as usize, c as u32);
                if op == 0 || op == 9 {
                    let to = if d == 0 { None } else { Some(ts_ns(d as *const _)) };
                    let bits = if op == 9 { f as u32 } else { u32::MAX };
                    let r = sched::futex_wait(addr, val, bits, to, op == 9);
                    return if r == 0 { 0 } else { set_errno(r) };
                }
                if op == 1 || op == 10 {
                    let bits = if op == 10 { f as u32 } else { u32::MAX };
                    let k = sched::futex_wake(addr, bits, val);
                    // A thread outside the simulation may be waiting too.
                    sys::raw_syscall(n, a, b, c, d, e, f);
                    return k;
                }
            }
            318 => {
                if let Some(e) = refuse_entropy(c as u32) {
                    return set_errno(e);
                }
                sched::entropy(std::slice::from_raw_parts_mut(a as *mut u8, b as usize));
                return b;
            }
            _ => {}
        }
    }
    ret(sys::raw_syscall(n, a, b, c, d, e, f))
}
/// Entropy is refused: interrupted, not supported, not ready.
fn refuse_entropy(flags: u32) -> Option<i32> {
    let r = sched::request_entropy()?;
    Some(match r % 4 {
        0 => 4,
        1 if flags & 4 != 0 => 22,
        2 if flags & 1 != 0 => 11,
        _ => 38,
    })
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if let Some(e) = refuse_entropy(flags) {
        return set_errno(e) as isize;
    }
    sched::entropy(std::slice::from_raw_parts_mut(p, n));
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(p: *mut u8, n: usize) -> i32 {
    sched::entropy(std::slice::from_raw_parts_mut(p, n));
    0
}
type GetEnv = unsafe extern "C" fn(*const i8) -> *const u8;
static P_GETENV: AtomicUsize = AtomicUsize::new(0);
static ENV_VALUES: [&[u8]; 8] = [b"0\0", b"1\0", b"\0", b"true\0", b"4\0", b"off\0", b"64\0", b"debug\0"];
/// Strings that occur in the code under test: values an environment variable may be compared with.
pub static DICTIONARY: std::sync::OnceLock<Vec<std::ffi::CString>> = std::sync::OnceLock::new();
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const i8) -> *const u8 {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    // What the language runtime itself asks for is not the library's doing.
    let runtime = [&b"RUST_BACKTRACE"[..], b"RUST_LIB_BACKTRACE", b"RUST_MIN_STACK"].contains(&n);
    let f: GetEnv = std::mem::transmute(real(b"getenv\0", &P_GETENV));
    if !runtime && !n.starts_with(b"ALGEO_SIM_") {
        if let Some(v) = sched::environment(n) {
            // What is in the environment block, or was put there in this process, is what is read.
            let p = f(name);
            if !p.is_null() {
                return p;
            }
            if v == 0 {
                return std::ptr::null();
            }
            let words = DICTIONARY.get().map_or(&[][..], |d| d);
            if v & 0x80 != 0 && !words.is_empty() {
                return words[(v >> 8) as usize % words.len()].as_ptr() as *const u8;
            }
            let k = (v >> 8) as usize % 10;
            return if k < 8 { ENV_VALUES[k].as_ptr() } else { std::ptr::null() };
        }
    }
    f(name)
}
extern "C" {
    static mut environ: *mut *const u8;
}
static ARGV: AtomicUsize = AtomicUsize::new(0);
static ARGC: AtomicUsize = AtomicUsize::new(0);
extern "C" fn keep_args(n: i32, v: *const *const u8, _env: *const *const u8) {
    ARGC.store(n as usize, Relaxed);
    ARGV.store(v as usize, Relaxed);
}
#[used]
#[link_section = ".init_array"]
static KEEP_ARGS: extern "C" fn(i32, *const *const u8, *const *const u8) = keep_args;
/// Replaces the whole environment block and the program's arguments (in a child process).
pub fn furnish(seed: u64) {
    let word = |k: u64| -> Vec<u8> {
        let words = DICTIONARY.get().map_or(&[][..], |d| d);
        let r = crate::rng::mix(seed ^ k.wrapping_mul(0x9e3779b97f4a7c15));
        if r & 1 != 0 && !words.is_empty() {
            words[(r >> 8) as usize % words.len()].to_bytes().to_vec()
        } else {
            let v = ENV_VALUES[(r >> 8) as usize % 8];
            v[..v.len() - 1].to_vec()
        }
    };
    let mut vars: Vec<Vec<u8>> = vec![b"RUST_BACKTRACE=0".to_vec()];
    let mut args: Vec<Vec<u8>> = vec![b"program".to_vec()];
    if seed != 0 {
        for (i, n) in ["PATH", "HOME", "LANG", "LC_ALL", "TERM", "NO_COLOR", "COLUMNS", "USER", "TZ", "RUST_LOG"].iter().enumerate() {
            if word(100 + i as u64).len() % 2 == 1 {
                vars.push([n.as_bytes(), b"=", &word(i as u64)[..]].concat());
            }
        }
        for i in 0..crate::rng::mix(seed) % 4 {
            let n: Vec<u8> = word(40 + i).into_iter().filter(|c| *c != b'=').collect();
            vars.push([if n.is_empty() { b"X".to_vec() } else { n }, b"=".to_vec(), word(60 + i)].concat());
        }
        for i in 0..crate::rng::mix(seed ^ 5) % 4 {
            args.push(word(80 + i));
        }
        let n = args.len();
        args[0] = if n % 2 == 0 { b"/usr/bin/algebra".to_vec() } else { b"./x".to_vec() };
    }
    let block = |v: Vec<Vec<u8>>| -> Vec<*const u8> {
        let mut p: Vec<*const u8> = v
            .into_iter()
            .map(|mut s| {
                s.push(0);
                Box::leak(s.into_boxed_slice()).as_ptr()
            })
            .collect();
        p.push(std::ptr::null());
        p
    };
    unsafe {
        environ = Box::leak(block(vars).into_boxed_slice()).as_mut_ptr();
        // The language runtime remembers where the argument vector is and how long it was.
        let (v, n) = (ARGV.load(Relaxed) as *mut *const u8, ARGC.load(Relaxed));
        let args = block(args);
        for i in 0..n {
            *v.add(i) = args.get(i).copied().unwrap_or(std::ptr::null());
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if let Some(v) = sched::environment(b"/tty") {
        return (v >> 8) as i32 & 1;
    }
    let mut t = [0u64; 16];
    (sys::raw_syscall(16, fd as i64, 0x5401, t.as_mut_ptr() as i64, 0, 0, 0) == 0) as i32
}
type GetCwd = unsafe extern "C" fn(*mut u8, usize) -> *mut u8;
static P_CWD: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn getcwd(p: *mut u8, n: usize) -> *mut u8 {
    if let Some(v) = sched::environment(b"/cwd") {
        if let Some(r) = sched::request() {
            set_errno([2, 13, 12][r as usize % 3]);
            return std::ptr::null_mut();
        }
        let d: &[u8] = if v == 0 { b"/\0" } else { [&b"/\0"[..], b"/tmp/x\0", b"/home/user/work\0", b"/a b\0"][(v >> 8) as usize % 4] };
        if n < d.len() {
            set_errno(34);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
        return p;
    }
    let f: GetCwd = std::mem::transmute(real(b"getcwd\0", &P_CWD));
    f(p, n)
}
/// Files written in this process: by the hash of their path.
static FILES: std::sync::Mutex<Vec<(u64, i64)>> = std::sync::Mutex::new(Vec::new());
/// What the kernel would have told about the machine: the same numbers in every plain process.
fn system_file(path: &[u8], v: u64) -> Option<String> {
    let n = |i: u32, plain: u64, below: u64| if v == 0 { plain } else { 1 + crate::rng::mix(v ^ (i as u64) << 40) % below };
    Some(match path {
        b"/proc/meminfo" => {
            let total = n(1, 32 << 20, 64 << 20);
            let free = total / n(2, 2, 50);
            format!("MemTotal: {:>14} kB\nMemFree: {:>15} kB\nMemAvailable: {:>10} kB\nBuffers: {:>15} kB\nCached: {:>16} kB\n", total, free, free, free / 9, free / 3)
        }
        b"/proc/cpuinfo" => (0..n(3, 8, 32)).map(|i| format!("processor\t: {}\ncpu MHz\t\t: {}\n\n", i, 2000 + i)).collect(),
        b"/proc/loadavg" => format!("{}.{:02} 0.50 0.25 1/{} {}\n", n(4, 1, 30) - 1, n(5, 1, 99), n(6, 200, 900), n(7, 4711, 30000)),
        b"/proc/uptime" => format!("{}.10 {}.20\n", n(8, 100_000, 1 << 24), n(9, 90_000, 1 << 24)),
        b"/proc/self/statm" => format!("{} {} {} 100 0 {} 0\n", n(10, 3000, 1 << 20), n(11, 900, 1 << 16), n(12, 700, 1 << 10), n(13, 800, 1 << 16)),
        b"/proc/self/status" => format!("Name:\tprogram\nVmPeak:\t{0} kB\nVmSize:\t{0} kB\nVmRSS:\t{1} kB\nThreads:\t{2}\n", n(14, 12_000, 1 << 22), n(15, 3_600, 1 << 18), n(16, 1, 64)),
        b"/sys/devices/system/cpu/online" => format!("0-{}\n", n(3, 8, 32) - 1),
        b"/sys/fs/cgroup/memory.max" => "max\n".into(),
        _ => return None,
    })
}
/// A file the library opens by itself: absent, with a word in it, or what was written to it before.
unsafe fn file(path: *const i8, flags: i32) -> Option<i64> {
    let path = std::ffi::CStr::from_ptr(path).to_bytes();
    let v = sched::environment(path)?;
    if let Some(r) = sched::request() {
        return Some(-[24, 23, 13, 12, 5, 4][r as usize % 6]);
    }
    if path == b"/dev/urandom" || path == b"/dev/random" {
        let fd = sys::raw_syscall(319, b"entropy\0".as_ptr() as i64, 0, 0, 0, 0, 0);
        let mut buf = [0u8; 512];
        sched::entropy(&mut buf);
        sys::raw_syscall(1, fd, buf.as_ptr() as i64, 512, 0, 0, 0);
        sys::raw_syscall(8, fd, 0, 0, 0, 0, 0);
        return Some(fd);
    }
    let h = crate::rng::hash128(path).0;
    let reopen = |fd: i64| {
        let p = sched::masked(|| format!("/proc/self/fd/{}\0", fd));
        let r = sys::raw_syscall(257, -100, p.as_ptr() as i64, (flags & !0o300) as i64, 0, 0, 0);
        sched::masked(|| drop(p));
        Some(r)
    };
    let known = sched::masked(|| FILES.lock().map_or(None, |f| f.iter().find(|x| x.0 == h).map(|x| x.1)));
    if let Some(fd) = known {
        return if flags & 0o300 == 0o300 { Some(-17) } else { reopen(fd) };
    }
    if flags & 0o100 != 0 {
        let low = sys::raw_syscall(319, b"file\0".as_ptr() as i64, 0, 0, 0, 0, 0);
        // Out of the way of the program's own.
        let fd = sys::raw_syscall(72, low, 1030, 600, 0, 0, 0);
        sys::raw_syscall(3, low, 0, 0, 0, 0, 0);
        if fd >= 0 {
            sched::masked(|| FILES.lock().map(|mut f| f.push((h, fd))).ok());
            return reopen(fd);
        }
        return Some(fd);
    }
    if v == 0 || v & 0x30 != 0 {
        let told = sched::masked(|| system_file(path, v));
        if let Some(t) = &told {
            let fd = sys::raw_syscall(319, b"file\0".as_ptr() as i64, 0, 0, 0, 0, 0);
            sys::raw_syscall(1, fd, t.as_ptr() as i64, t.len() as i64, 0, 0, 0);
            sys::raw_syscall(8, fd, 0, 0, 0, 0, 0);
            sched::masked(|| drop(told));
            return Some(fd);
        }
    }
    if v == 0 || v & 0x40 == 0 {
        return Some(-2);
    }
    let words = DICTIONARY.get().map_or(&[][..], |d| d);
    let w = if v & 0x80 != 0 && !words.is_empty() { words[(v >> 8) as usize % words.len()].to_bytes() } else { b"1" };
    let fd = sys::raw_syscall(319, b"file\0".as_ptr() as i64, 0, 0, 0, 0, 0);
    if fd >= 0 {
        sys::raw_syscall(1, fd, w.as_ptr() as i64, w.len() as i64, 0, 0, 0);
        sys::raw_syscall(8, fd, 0, 0, 0, 0, 0);
    }
    Some(fd)
}
unsafe fn open_at(dir: i64, path: *const i8, flags: i32, mode: u32) -> i32 {
    match file(path, flags) {
        Some(r) => ret(r) as i32,
        None => ret(sys::raw_syscall(257, dir, path as i64, flags as i64, mode as i64, 0, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    open_at(-100, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const i8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    // An open file's own metadata is asked for with an empty path.
    if *path != 0 {
        if let Some(r) = file(path, 0) {
            if r < 0 {
                return ret(r) as i32;
            }
            sys::raw_syscall(332, r, b"\0".as_ptr() as i64, 0x1000, mask as i64, out as i64, 0);
            sys::raw_syscall(3, r, 0, 0, 0, 0, 0);
            return 0;
        }
    }
    ret(sys::raw_syscall(332, dir as i64, path as i64, flags as i64, mask as i64, out as i64, 0)) as i32
}
/// Reading and writing files: refused, or done in part.
unsafe fn transfer(n: i64, fd: i32, p: *mut u8, len: usize) -> isize {
    let mut len = len;
    if let Some(r) = sched::request() {
        match r % 4 {
            0 | 1 => return set_errno(4) as isize,
            2 if len > 1 => len = 1 + (r >> 8) as usize % (len - 1),
            _ => return set_errno(if n == 0 { 5 } else { 28 }) as isize,
        }
    }
    ret(sys::raw_syscall(n, fd as i64, p as i64, len as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    transfer(0, fd, p, n)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *mut u8, n: usize) -> isize {
    transfer(1, fd, p, n)
}
type Affinity = unsafe extern "C" fn(i32, usize, *mut u8) -> i32;
static P_AFF: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if let Some(v) = sched::environment(b"/processors") {
        let cpus = if v == 0 { 1 } else { 1 + (v >> 8) as usize % 16 };
        std::ptr::write_bytes(set, 0, n);
        for i in 0..cpus.min(n * 8) {
            *set.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let f: Affinity = std::mem::transmute(real(b"sched_getaffinity\0", &P_AFF));
    f(pid, n, set)
}
type GetPid = unsafe extern "C" fn() -> i32;
static P_PID: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if let Some(v) = sched::environment(b"/pid") {
        return if v == 0 { 4242 } else { 2 + (v >> 8) as i32 % 30000 };
    }
    let f: GetPid = std::mem::transmute(real(b"getpid\0", &P_PID));
    f()
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32 {
    if let Some(ns) = sched::clock() {
        *t = [(ns / 1_000_000_000) as i64, (ns % 1_000_000_000) as i64];
        return 0;
    }
    ret(sys::raw_syscall(228, id as i64, t as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const [i64; 2], r: *mut [i64; 2]) -> i32 {
    if sched::current().is_some() {
        if sched::request().is_some() {
            if !r.is_null() {
                *r = *t;
            }
            return set_errno(4) as i32;
        }
        sched::sleep(ts_ns(t));
        return 0;
    }
    ret(sys::raw_syscall(35, t as i64, r as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, t: *const [i64; 2], r: *mut [i64; 2]) -> i32 {
    if sched::current().is_some() {
        let mut ns = ts_ns(t);
        if flags & 1 != 0 {
            ns = ns.saturating_sub(sched::clock().unwrap_or(0));
        }
        sched::sleep(ns);
        return 0;
    }
    -(sys::raw_syscall(230, id as i64, flags as i64, t as i64, r as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sched::current().is_some() {
        sched::relinquish();
        return 0;
    }
    sys::raw_syscall(24, 0, 0, 0, 0, 0, 0);
    0
}

type Start = extern "C" fn(usize) -> usize;
type PCreate = unsafe extern "C" fn(*mut usize, *const u8, Start, usize) -> i32;
type PJoin = unsafe extern "C" fn(usize, *mut usize) -> i32;
fn real(name: &'static [u8], slot: &'static AtomicUsize) -> usize {
    let mut p = slot.load(Relaxed);
    if p == 0 {
        p = unsafe { sys::dlsym(sys::RTLD_NEXT, name.as_ptr() as *const _) } as usize;
        assert!(p != 0);
        slot.store(p, Relaxed);
    }
    p
}
static P_CREATE: AtomicUsize = AtomicUsize::new(0);
static P_JOIN: AtomicUsize = AtomicUsize::new(0);
struct Boot {
    start: Start,
    arg: usize,
    tid: usize,
}
extern "C" fn boot(p: usize) -> usize {
    let b = unsafe { Box::from_raw(p as *mut Boot) };
    let Boot { start, arg, tid } = *b;
    sched::thread_main(tid, || start(arg))
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut usize, attr: *const u8, start: Start, arg: usize) -> i32 {
    let f: PCreate = std::mem::transmute(real(b"pthread_create\0", &P_CREATE));
    if sched::current().is_some() {
        if sched::request().is_some() {
            return 11;
        }
        let Some(tid) = sched::register_thread() else { return 11 };
        let b = Box::into_raw(Box::new(Boot { start, arg, tid }));
        let r = f(out, attr, boot, b as usize);
        if r != 0 {
            sched::unregister_thread(tid);
            drop(Box::from_raw(b));
        } else {
            sched::set_pthread(tid, *out);
        }
        return r;
    }
    f(out, attr, start, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(p: usize, out: *mut usize) -> i32 {
    let f: PJoin = std::mem::transmute(real(b"pthread_join\0", &P_JOIN));
    if sched::current().is_some() {
        sched::join(p);
    }
    f(p, out)
}
