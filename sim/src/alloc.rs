//! The global allocator: counts what the code under test allocates while `inside` runs it, and
//! whether that is released again.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

pub struct Counting;
#[global_allocator]
static A: Counting = Counting;

const SLOTS: usize = 1 << 20;
thread_local! {
    /// This thread is in counted code.
    static ON: Cell<bool> = const { Cell::new(false) };
}
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
/// Once anything was counted every release has to be looked up.
static EVER: AtomicBool = AtomicBool::new(false);
static mut TABLE: *mut [usize; 2] = std::ptr::null_mut();
static LOCK: AtomicBool = AtomicBool::new(false);

fn locked<T>(f: impl FnOnce() -> T) -> T {
    while LOCK.compare_exchange(false, true, Relaxed, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    std::sync::atomic::fence(std::sync::atomic::Ordering::Acquire);
    let r = f();
    LOCK.store(false, std::sync::atomic::Ordering::Release);
    r
}
fn hash(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 24 & (SLOTS - 1)
}
unsafe fn put(p: usize, n: usize) {
    if TABLE.is_null() {
        TABLE = libc::mmap(std::ptr::null_mut(), SLOTS * 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut _;
    }
    let mut i = hash(p);
    for _ in 0..SLOTS {
        let e = &mut *TABLE.add(i);
        if e[0] <= 1 || e[0] == p {
            *e = [p, n];
            return;
        }
        i = (i + 1) & (SLOTS - 1);
    }
}
unsafe fn take(p: usize) -> Option<usize> {
    if TABLE.is_null() {
        return None;
    }
    let mut i = hash(p);
    for _ in 0..SLOTS {
        let e = &mut *TABLE.add(i);
        if e[0] == p {
            e[0] = 1;
            return Some(e[1]);
        }
        if e[0] == 0 {
            return None;
        }
        i = (i + 1) & (SLOTS - 1);
    }
    None
}
fn born(p: *mut u8, n: usize) {
    if EVER.load(Relaxed) && !p.is_null() && ON.with(|o| o.get()) {
        locked(|| unsafe { put(p as usize, n) });
        BLOCKS.fetch_add(1, Relaxed);
        let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
        PEAK.fetch_max(l, Relaxed);
    }
}
fn died(p: *mut u8) {
    if EVER.load(Relaxed) {
        if let Some(n) = locked(|| unsafe { take(p as usize) }) {
            BLOCKS.fetch_sub(1, Relaxed);
            LIVE.fetch_sub(n as i64, Relaxed);
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        born(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        born(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        died(p);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // A block stays counted or uncounted for its whole life.
        let was = if EVER.load(Relaxed) { locked(|| take(p as usize)) } else { None };
        let q = System.realloc(p, l, n);
        if let Some(o) = was {
            let keep = if q.is_null() { (p, o) } else { (q, n) };
            locked(|| put(keep.0 as usize, keep.1));
            let v = LIVE.fetch_add(keep.1 as i64 - o as i64, Relaxed) + keep.1 as i64 - o as i64;
            PEAK.fetch_max(v, Relaxed);
        }
        q
    }
}
/// (bytes, blocks) allocated inside and not released yet.
pub fn live() -> (i64, i64) {
    (LIVE.load(Relaxed), BLOCKS.load(Relaxed))
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
}
struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        ON.with(|o| o.set(self.0));
    }
}
/// What `f` allocates is counted (also when it panics).
pub fn inside<T>(f: impl FnOnce() -> T) -> T {
    EVER.store(true, Relaxed);
    let _r = Restore(ON.with(|o| o.replace(true)));
    f()
}
/// What the simulator itself allocates in the middle of code under test is not.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let _r = Restore(ON.with(|o| o.replace(false)));
    f()
}
/// Sizes of the counted blocks.
pub fn sizes() -> Vec<usize> {
    locked(|| unsafe {
        let mut v = Vec::with_capacity(4096);
        if !TABLE.is_null() {
            for i in 0..SLOTS {
                let e = *TABLE.add(i);
                if e[0] > 1 && v.len() < 4096 {
                    v.push(e[1]);
                }
            }
        }
        v
    })
}
