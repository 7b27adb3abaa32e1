//! Hand-declared libc entry points (x86_64 Linux), so that the harness has no dependency.
#![allow(non_camel_case_types)]
pub use std::ffi::{c_char, c_int, c_long, c_void};

extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    pub fn alarm(secs: u32) -> u32;
    pub fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    pub fn dup2(a: c_int, b: c_int) -> c_int;
    pub fn setenv(k: *const c_char, v: *const c_char, overwrite: c_int) -> c_int;
    pub fn personality(p: u64) -> c_int;
    pub fn malloc(n: usize) -> *mut c_void;
    pub fn __errno_location() -> *mut c_int;
    pub fn prctl(op: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
    pub fn getppid() -> c_int;
    pub fn getauxval(k: u64) -> u64;
    pub static __data_start: u8;
    pub static _end: u8;
}
pub const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;

/// A raw system call: the libc `syscall` symbol is replaced by the simulator.
#[inline]
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
pub fn futex_wait(w: &std::sync::atomic::AtomicU32, val: u32) {
    unsafe { raw_syscall(202, w as *const _ as i64, 0, val as i64, 0, 0, 0) };
}
pub fn futex_wake(w: &std::sync::atomic::AtomicU32, n: i64) {
    unsafe { raw_syscall(202, w as *const _ as i64, 1, n, 0, 0, 0) };
}
pub fn map_shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21 /* MAP_SHARED|MAP_ANONYMOUS */, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p as *mut u8
}
pub unsafe fn open_null() -> c_int {
    raw_syscall(257, -100, b"/dev/null\0".as_ptr() as i64, 1, 0, 0, 0) as c_int
}
