//! From where callbacks and allocations are made: every one of a fault-free call is filed under a
//! hash of the return addresses above it, so that a search for places to inject a fault at can
//! choose among the distinct places of a call instead of being drowned in its innermost loop.
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

const CAP: usize = 200_000;
struct Log(UnsafeCell<[[u32; CAP]; 2]>);
unsafe impl Sync for Log {}
static LOG: Log = Log(UnsafeCell::new([[0; CAP]; 2]));
static LEN: [AtomicUsize; 2] = [const { AtomicUsize::new(0) }; 2];
static ON: AtomicBool = AtomicBool::new(false);
thread_local! { static TOP: Cell<usize> = const { Cell::new(0) }; }

pub const CALLBACK: usize = 0;
pub const ALLOCATION: usize = 1;

/// Starts recording, for calls made below the caller on this thread's stack.
#[inline(never)]
pub fn start() {
    let x = 0u8;
    TOP.with(|t| t.set(&x as *const u8 as usize + 64));
    ON.store(true, Relaxed);
}
#[inline(never)]
pub fn stop() {
    ON.store(false, Relaxed);
}
#[inline(always)]
pub fn note(kind: usize) {
    if ON.load(Relaxed) {
        record(kind)
    }
}
#[cold]
#[inline(never)]
fn record(kind: usize) {
    let n = LEN[kind].load(Relaxed);
    if n >= CAP {
        return;
    }
    let top = TOP.try_with(|t| t.get()).unwrap_or(0);
    let (mut fp, sp): (usize, usize);
    unsafe { std::arch::asm!("mov {}, rbp", "mov {}, rsp", out(reg) fp, out(reg) sp, options(nostack, nomem)) };
    let mut low = sp;
    let mut h = 0u64;
    for _ in 0..14 {
        // Frames lie in order between here and the frame that started the recording.
        if fp <= low || fp % 8 != 0 || fp + 16 > top {
            break;
        }
        unsafe {
            h = crate::rng::mix(h ^ *((fp + 8) as *const u64));
            low = fp;
            fp = *(fp as *const usize);
        }
    }
    unsafe { (*LOG.0.get())[kind][n] = h as u32 };
    LEN[kind].store(n + 1, Relaxed);
}
/// Per distinct place: the first, a middle and the last occurrence (counted from 1).
pub fn summary(kind: usize) -> String {
    let v = unsafe { &(&*LOG.0.get())[kind][..LEN[kind].load(Relaxed)] };
    let mut at: std::collections::BTreeMap<u32, Vec<u32>> = Default::default();
    for (i, s) in v.iter().enumerate() {
        at.entry(*s).or_default().push(i as u32 + 1);
    }
    let mut s = String::new();
    let mut at: Vec<_> = at.into_values().collect();
    at.sort();
    for x in at {
        s += &format!("{},{},{} ", x[0], x[x.len() / 2], x[x.len() - 1]);
    }
    s
}
pub fn parse(s: &str) -> Vec<[u32; 3]> {
    s.split(' ')
        .filter_map(|x| {
            let mut i = x.split(',').map(|y| y.parse().ok());
            Some([i.next()??, i.next()??, i.next()??])
        })
        .collect()
}
