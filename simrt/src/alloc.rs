//! The allocator seam. In the worker it is the system allocator. In a run's child process every
//! new block comes from an arena at a fixed address managed here, so that the addresses the code
//! under test sees are a function of the run's configuration alone - and one of the things the
//! simulator decides. It also counts live bytes and fails chosen allocations.
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

pub struct SimAlloc;

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static FAILED: AtomicU64 = AtomicU64::new(0);

const BASE: usize = 0x2000_0000_0000;
const LEN: usize = 4 << 30;
const CLASSES: usize = 40;
static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static TOP: AtomicUsize = AtomicUsize::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
struct Heads(std::cell::UnsafeCell<[(usize, usize); CLASSES]>);
unsafe impl Sync for Heads {}
/// Per size class: first and last free block (linked through their first word).
static HEADS: Heads = Heads(std::cell::UnsafeCell::new([(0, 0); CLASSES]));

/// Switches this process to the arena. `seed` = 0: compact layout, most recently freed block
/// reused first; otherwise the layout and the reuse policy are drawn from it.
#[inline(never)]
pub fn arena(seed: u64) {
    let p = unsafe { sys::mmap(BASE as *mut _, LEN, 3, 0x4022 | 0x100000 /* PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE */, -1, 0) };
    if p as usize != BASE {
        return;
    }
    SEED.store(seed, Relaxed);
    TOP.store(BASE + if seed == 0 { 0 } else { (crate::rng::mix(seed) % 4096) as usize * 16 }, Relaxed);
    ON.store(true, SeqCst);
}
/// Behind every block, and all over a freed one.
const GUARD: u8 = 0xA5;
const STALE: u8 = 0xDB;
static GUARDS: [u8; 64] = [GUARD; 64];
static STALES: [u8; 512] = [STALE; 512];
extern "C" {
    fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
}
fn damaged() {
    crate::shm::flag(crate::shm::fl::HEAP);
}
fn class(n: usize) -> (usize, usize) {
    // 16-byte steps up to 256, then powers of two.
    if n <= 256 {
        let c = (n + 15) / 16;
        (c, c.max(1) * 16)
    } else {
        let p = n.next_power_of_two();
        (16 + p.trailing_zeros() as usize - 8, p)
    }
}
unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let (c, sz) = class(l.size() + 8);
    if c >= CLASSES || l.align() > 4096 {
        return std::ptr::null_mut();
    }
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let heads = &mut *HEADS.0.get();
    let seed = SEED.load(Relaxed);
    let mut take = heads[c].0 != 0 && l.align() <= 16;
    let mut gap = 0;
    if seed != 0 {
        let n = crate::rng::mix(seed ^ TOP.load(Relaxed) as u64);
        let policy = seed % 4; // 0: LIFO, 1: never reuse, 2 and 3: FIFO, sometimes
        if policy == 1 || (policy >= 2 && n % 3 == 0) {
            take = false;
        }
        gap = (n >> 7) as usize % 6 * 16;
    }
    let p = if take {
        let p = heads[c].0;
        heads[c].0 = *(p as *const usize);
        if heads[c].0 == 0 {
            heads[c].1 = 0;
        }
        p
    } else {
        let al = l.align().max(16);
        let p = (TOP.load(Relaxed) + gap + al - 1) / al * al;
        if p + sz > BASE + LEN {
            0
        } else {
            TOP.store(p + sz, Relaxed);
            p
        }
    };
    LOCK.store(false, Release);
    let q = p as *mut u8;
    if p != 0 {
        if take && memcmp(q.add(8), STALES.as_ptr(), sz.min(512) - 8) != 0 {
            damaged();
        }
        let n = l.size();
        std::ptr::write_bytes(q.add(n), GUARD, (sz - n).min(64));
    }
    q
}
unsafe fn arena_free(p: *mut u8, l: Layout) {
    let (c, sz) = class(l.size() + 8);
    if memcmp(p.add(l.size()), GUARDS.as_ptr(), (sz - l.size()).min(64)) != 0 {
        damaged();
    }
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    // Stale contents must not look valid.
    std::ptr::write_bytes(p, STALE, sz.min(512));
    let heads = &mut *HEADS.0.get();
    let fifo = SEED.load(Relaxed) % 4 >= 2;
    if fifo && heads[c].1 != 0 {
        *(p as *mut usize) = 0;
        *(heads[c].1 as *mut usize) = p as usize;
        heads[c].1 = p as usize;
    } else {
        *(p as *mut usize) = heads[c].0;
        if heads[c].0 == 0 {
            heads[c].1 = p as usize;
        }
        heads[c].0 = p as usize;
    }
    LOCK.store(false, Release);
}
#[inline]
fn in_arena(p: *mut u8) -> bool {
    (BASE..BASE + LEN).contains(&(p as usize))
}
unsafe fn get(l: Layout) -> *mut u8 {
    let p = if ON.load(Relaxed) { arena_alloc(l) } else { System.alloc(l) };
    if !p.is_null() {
        LIVE.fetch_add(l.size() as i64, Relaxed);
    }
    p
}
unsafe fn put(p: *mut u8, l: Layout) {
    LIVE.fetch_sub(l.size() as i64, Relaxed);
    if in_arena(p) {
        arena_free(p, l)
    } else if !ON.load(Relaxed) {
        System.dealloc(p, l)
    }
    // else: a block of the worker, freed in the run's child; left alone.
}

thread_local! {
    static WINDOW: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FAIL_AT: Cell<u64> = const { Cell::new(0) };
    static FAIL_FOR: Cell<u64> = const { Cell::new(0) };
}

/// Opens the window in which this thread's allocations are counted (and may fail).
/// `fail_at` = 1 fails the first allocation of the window; 0 fails none; `fail_for` is how many in a row.
#[inline(never)]
pub fn window(open: bool, fail_at: u64, fail_for: u64) {
    if open {
        COUNT.with(|c| c.set(0));
    }
    FAIL_AT.with(|c| c.set(fail_at));
    FAIL_FOR.with(|c| c.set(fail_for));
    WINDOW.with(|c| c.set(open));
}
#[inline(never)]
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}
#[inline]
fn fails() -> bool {
    if !WINDOW.try_with(|w| w.get()).unwrap_or(false) {
        return false;
    }
    let n = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    crate::sites::note(crate::sites::ALLOCATION);
    let at = FAIL_AT.with(|c| c.get());
    if at != 0 && n >= at && n - at < FAIL_FOR.with(|c| c.get()) {
        FAILED.fetch_add(1, Relaxed);
        crate::shm::bump(crate::shm::st::ALLOC_FAILS, 1);
        true
    } else {
        false
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    #[inline(never)]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if fails() {
            return std::ptr::null_mut();
        }
        get(l)
    }
    #[inline(never)]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if fails() {
            return std::ptr::null_mut();
        }
        let p = get(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    #[inline(never)]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        put(p, l)
    }
    #[inline(never)]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if fails() {
            return std::ptr::null_mut();
        }
        if !ON.load(Relaxed) {
            let q = System.realloc(p, l, n);
            if !q.is_null() {
                LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
            }
            return q;
        }
        let q = get(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            put(p, l);
        }
        q
    }
}
