//! The simulated machine under the code under test: one runs at a time, this module decides who.
//!
//! Real OS threads are parked and released one at a time. Control can change hands at every memory
//! access and atomic operation of the instrumented crates (tsan.rs), at every futex wait/wake
//! (std's Mutex, RwLock, Condvar, Once, park: `syscall` is interposed), at yields and sleeps, and
//! at thread exit. Clocks, sleeps and the entropy source are simulated as well. All choices come
//! from one PRNG, or, in a replay, from an explicit list of decisions.
use crate::rng::{fold, Rng};
use serde::{Deserialize, Serialize};
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub const W_PLAIN: u64 = 1;
pub const W_ATOMIC: u64 = 40;
const POINT_LIMIT: u64 = 400_000_000;

thread_local! { static TID: Cell<i32> = const { Cell::new(-1) }; }
static RAND: AtomicU64 = AtomicU64::new(0);

/// One scheduling decision: thread `t`, having executed `at` weighted points, chose `v`.
/// k: 'p' preempt to thread v, 'b' blocked and thread v goes next, 'y' yield to v, 'w' wake waiter
/// number v first, 's' spurious wake-up, 'f' first thread.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Decision(pub usize, pub u64, pub char, pub usize);

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Sched {
    pub seed: u64,
    /// Mean number of weighted points between preemptions (0: only at blocking operations).
    pub gap: u64,
    /// Spurious futex wake-ups, per mille.
    pub spurious: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub explicit: Option<Vec<Decision>>,
}
impl Sched {
    pub fn draw(rng: &mut Rng) -> Sched {
        let gap = *rng.pick(&[0, 0, 4000, 1000, 300, 100, 40, 12]);
        Sched { seed: rng.next(), gap, spurious: *rng.pick(&[0, 0, 50, 300]), explicit: None }
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum St {
    Ready,
    Futex(usize, Option<u64>),
    Sleep(u64),
    Done,
}
struct Th {
    st: St,
    go: AtomicU32,
    pcount: u64,
    next_at: u64,
    timed_out: bool,
    explicit: Vec<Decision>, // reversed: next is last
}
#[derive(Default, Clone, Serialize, Deserialize, Debug)]
pub struct SchedStats {
    pub points: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub blocks: u64,
    pub spurious: u64,
    pub yields: u64,
    pub threads: u64,
    pub sim_ns: u64,
    pub hash: u64,
}
struct Sim {
    ths: Vec<Th>,
    cur: usize,
    rng: Rng,
    cfg: Sched,
    decisions: Vec<Decision>,
    now: u64,
    st: SchedStats,
    /// How many threads have come up.
    up: AtomicU32,
    /// A thread ended (its number), and who goes next.
    ended: AtomicU32,
    gone: usize,
    heir: Option<usize>,
}
static mut SIM: *mut Sim = std::ptr::null_mut();
static NOW_BASE: AtomicU64 = AtomicU64::new(1_700_000_000_000_000_000);

fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn tid() -> i32 {
    TID.with(|t| t.get())
}

// ---- raw system calls (never interposed) ----
unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
         in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn fut_wait(a: &AtomicU32, v: u32) {
    unsafe { raw6(libc::SYS_futex, a as *const _ as usize, 128, v as usize, 0, 0, 0) };
}
fn fut_wake(a: &AtomicU32) {
    unsafe { raw6(libc::SYS_futex, a as *const _ as usize, 129, i32::MAX as usize, 0, 0, 0) };
}
fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        unsafe { *libc::__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}
fn err(e: i32) -> i64 {
    unsafe { *libc::__errno_location() = e };
    -1
}

// ---- preemption points ----
#[inline]
pub fn point(w: u64) {
    let t = TID.with(|t| t.get());
    if t < 0 {
        return;
    }
    let s = sim();
    let th = &mut s.ths[t as usize];
    th.pcount += w;
    if th.pcount < th.next_at {
        return;
    }
    crate::alloc::outside(|| s.preempt(t as usize));
}
/// An explicit scheduling point of a scenario (weighs as much as the mean gap).
pub fn yield_now() {
    let t = tid();
    if t < 0 {
        return;
    }
    let s = sim();
    s.ths[t as usize].pcount += W_ATOMIC;
    s.st.yields += 1;
    crate::alloc::outside(|| s.do_yield(t as usize));
}

impl Sim {
    fn ready(&self, except: Option<usize>) -> Vec<usize> {
        (0..self.ths.len()).filter(|i| self.ths[*i].st == St::Ready && Some(*i) != except).collect()
    }
    fn set_next(&mut self, t: usize) {
        let gap = self.cfg.gap;
        let th = &mut self.ths[t];
        th.next_at = match &self.cfg.explicit {
            Some(_) => th.explicit.iter().rev().find(|d| d.2 == 'p').map(|d| d.1).unwrap_or(u64::MAX),
            None if gap == 0 => u64::MAX,
            None => th.pcount + self.rng.gap(gap),
        };
        // Bounded progress: a run that executes too many points is stuck in a loop.
        th.next_at = th.next_at.min(POINT_LIMIT);
    }
    /// Looks up / draws a choice out of `n`; index 0 is the default.
    fn choose(&mut self, t: usize, k: char, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let at = self.ths[t].pcount;
        match &self.cfg.explicit {
            Some(_) => {
                let l = &mut self.ths[t].explicit;
                // Drop entries that were not met.
                while l.last().map(|d| d.1 < at).unwrap_or(false) {
                    l.pop();
                }
                match l.last() {
                    Some(d) if d.1 == at && d.2 == k => {
                        let v = d.3;
                        l.pop();
                        if v < n { v } else { 0 }
                    }
                    _ => 0,
                }
            }
            None => {
                let v = self.rng.below(n);
                if v != 0 {
                    self.decisions.push(Decision(t, at, k, v));
                }
                v
            }
        }
    }
    fn preempt(&mut self, t: usize) {
        if self.ths[t].pcount >= POINT_LIMIT {
            crate::run::violate("livelock", format!("thread {t} executed {POINT_LIMIT} steps without finishing"));
        }
        let target = match &self.cfg.explicit {
            Some(_) => {
                let at = self.ths[t].pcount;
                let l = &mut self.ths[t].explicit;
                while l.last().map(|d| d.1 < at && d.2 != 'p').unwrap_or(false) {
                    l.pop();
                }
                match l.last() {
                    Some(d) if d.2 == 'p' && d.1 <= at => {
                        let v = d.3;
                        l.pop();
                        Some(v)
                    }
                    _ => None,
                }
            }
            None => {
                let c = self.ready(None);
                let v = *self.rng.pick(&c);
                if v != t {
                    self.decisions.push(Decision(t, self.ths[t].pcount, 'p', v));
                    Some(v)
                } else {
                    None
                }
            }
        };
        self.set_next(t);
        if let Some(v) = target {
            if v != t && v < self.ths.len() && self.ths[v].st == St::Ready {
                self.st.preemptions += 1;
                self.switch(t, v, true);
            }
        }
    }
    fn do_yield(&mut self, t: usize) {
        let mut c = self.ready(Some(t));
        c.insert(0, t);
        let i = self.choose(t, 'y', c.len());
        if c[i] != t {
            self.switch(t, c[i], true);
        }
    }
    /// Hands the machine over; `wait`: come back when scheduled again.
    fn switch(&mut self, from: usize, to: usize, wait: bool) {
        self.st.switches += 1;
        self.st.hash = fold(self.st.hash, (from as u64) << 56 | (to as u64) << 48 | self.ths[from].pcount);
        self.cur = to;
        if !wait {
            // The main thread sees the thread off before it lets the next one go on: what happens in
            // std while a thread ends takes locks that others need.
            self.end(from, Some(to));
            return;
        }
        let me = &self.ths[from].go as *const AtomicU32;
        self.ths[to].go.store(1, Ordering::SeqCst);
        fut_wake(&self.ths[to].go);
        wait_go(unsafe { &*me });
    }
    fn end(&mut self, t: usize, heir: Option<usize>) {
        self.gone = t;
        self.heir = heir;
        self.ended.store(1, Ordering::SeqCst);
        fut_wake(&self.ended);
    }
    /// The current thread cannot go on: picks who does.
    fn block(&mut self, t: usize, wait: bool) {
        self.st.blocks += 1;
        let mut c = self.ready(None);
        if c.is_empty() {
            // Nothing runnable: time jumps to the next timer.
            let next = (0..self.ths.len())
                .filter_map(|i| match self.ths[i].st {
                    St::Futex(_, Some(d)) => Some((d, i)),
                    St::Sleep(d) => Some((d, i)),
                    _ => None,
                })
                .min();
            match next {
                Some((d, i)) => {
                    self.now = self.now.max(d);
                    self.ths[i].timed_out = true;
                    self.ths[i].st = St::Ready;
                    c = vec![i];
                }
                None => {
                    if self.ths.iter().all(|x| x.st == St::Done) {
                        self.end(t, None);
                        return;
                    }
                    let stuck: Vec<usize> =
                        (0..self.ths.len()).filter(|i| self.ths[*i].st != St::Done).collect();
                    crate::run::violate("deadlock", format!("threads {stuck:?} wait for each other forever"));
                }
            }
        }
        let i = self.choose(t, 'b', c.len());
        if c[i] == t {
            return;
        }
        self.switch(t, c[i], wait);
    }
}
fn wait_go(g: &AtomicU32) {
    while g.load(Ordering::SeqCst) == 0 {
        fut_wait(g, 0);
    }
    g.store(0, Ordering::SeqCst);
}

// ---- interposed libc ----
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let t = tid();
    if t >= 0 && n == libc::SYS_futex {
        return crate::alloc::outside(|| sim_futex(t as usize, a, b, c as u32, d));
    }
    if n == libc::SYS_getrandom && RAND.load(Ordering::Relaxed) != 0 {
        return getrandom(a as *mut u8, b, c as u32) as i64;
    }
    ret(raw6(n, a, b, c, d, e, f))
}
unsafe fn sim_futex(t: usize, addr: usize, op: usize, val: u32, timeout: usize) -> i64 {
    let s = sim();
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                return err(libc::EAGAIN);
            }
            s.ths[t].pcount += W_ATOMIC;
            if s.cfg.spurious > 0 || s.cfg.explicit.is_some() {
                let hit = match s.cfg.explicit {
                    Some(_) => s.choose(t, 's', 2) == 1,
                    None => {
                        let h = s.rng.chance(s.cfg.spurious, 1000);
                        if h {
                            let at = s.ths[t].pcount;
                            s.decisions.push(Decision(t, at, 's', 1));
                        }
                        h
                    }
                };
                if hit {
                    s.st.spurious += 1;
                    s.do_yield(t);
                    return 0;
                }
            }
            let deadline = if timeout != 0 {
                let ts = &*(timeout as *const libc::timespec);
                let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                Some(if cmd == 0 { s.now + ns } else { ns.saturating_sub(NOW_BASE.load(Ordering::Relaxed)).max(s.now) })
            } else {
                None
            };
            s.ths[t].st = St::Futex(addr, deadline);
            s.ths[t].timed_out = false;
            s.block(t, true);
            if sim().ths[t].timed_out {
                sim().ths[t].timed_out = false;
                return err(libc::ETIMEDOUT);
            }
            0
        }
        1 | 10 => {
            let mut n = 0u32;
            while n < val {
                let w: Vec<usize> = (0..s.ths.len())
                    .filter(|i| matches!(s.ths[*i].st, St::Futex(a, _) if a == addr))
                    .collect();
                if w.is_empty() {
                    break;
                }
                s.ths[t].pcount += 1;
                let i = s.choose(t, 'w', w.len());
                s.ths[w[i]].st = St::Ready;
                n += 1;
            }
            if n == 0 {
                raw6(libc::SYS_futex, addr, op, val as usize, 0, 0, 0);
            }
            point(W_ATOMIC);
            n as i64
        }
        _ => err(libc::ENOSYS),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let seed = RAND.load(Ordering::Relaxed);
    if seed == 0 {
        return ret(raw6(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0)) as isize;
    }
    let x = RAND.fetch_add(0x9E37_79B9, Ordering::Relaxed);
    let mut r = Rng::new(x);
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}
#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if tid() >= 0 {
        yield_now();
        0
    } else {
        unsafe { ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32 }
    }
}
fn sim_sleep(ns: u64) {
    crate::alloc::outside(|| sim_sleep_(ns))
}
fn sim_sleep_(ns: u64) {
    let t = tid() as usize;
    let s = sim();
    s.ths[t].st = St::Sleep(s.now + ns);
    s.block(t, true);
    sim().ths[t].timed_out = false;
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if tid() >= 0 {
        sim_sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec,
) -> i32 {
    if tid() >= 0 {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let ns = if flags & 1 != 0 {
            ns.saturating_sub(NOW_BASE.load(Ordering::Relaxed) + sim().now)
        } else {
            ns
        };
        sim_sleep(ns);
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if RAND.load(Ordering::Relaxed) != 0 {
        // Simulated time: advances a little with every reading and with the steps executed.
        let now = if tid() >= 0 {
            let s = sim();
            s.now += 1000;
            s.now
        } else {
            0
        };
        let t = NOW_BASE.fetch_add(100, Ordering::Relaxed) + now;
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as i32
}
/// Makes entropy and clocks of this process simulated from now on.
pub fn simulate_environment(seed: u64) {
    RAND.store(seed | 1, Ordering::Relaxed);
}
/// A clock jump (fault): time as the code under test sees it moves by that many nanoseconds.
pub fn clock_jump(ns: i64) {
    NOW_BASE.fetch_add(ns as u64, Ordering::Relaxed);
}

// ---- running threads ----
struct Guard;
impl Drop for Guard {
    // The first thread-local registered is the last one destroyed: everything the thread's other
    // destructors do (such as dropping its default style manager) still happens under the scheduler.
    fn drop(&mut self) {
        let t = tid();
        if t >= 0 {
            TID.with(|x| x.set(-1));
            let s = sim();
            s.ths[t as usize].st = St::Done;
            s.block(t as usize, false);
        }
    }
}
thread_local! { static GUARD: Guard = const { Guard }; }

pub type Body = Box<dyn FnOnce() + Send>;

/// Runs the bodies as simulated threads to completion under `cfg`.
/// Returns the statistics and the decisions made.
pub fn run_threads(cfg: &Sched, bodies: Vec<Body>) -> (SchedStats, Vec<Decision>, Vec<bool>) {
    let n = bodies.len();
    let mut ths = Vec::new();
    for i in 0..n {
        let mut explicit: Vec<Decision> =
            cfg.explicit.iter().flatten().filter(|d| d.0 == i).cloned().collect();
        explicit.reverse();
        ths.push(Th { st: St::Ready, go: AtomicU32::new(0), pcount: 0, next_at: u64::MAX, timed_out: false, explicit });
    }
    let s = Box::new(Sim {
        ths,
        cur: 0,
        rng: Rng::new(cfg.seed),
        cfg: cfg.clone(),
        decisions: vec![],
        now: 0,
        st: SchedStats { threads: n as u64, ..Default::default() },
        up: AtomicU32::new(0),
        ended: AtomicU32::new(0),
        gone: 0,
        heir: None,
    });
    unsafe { SIM = Box::into_raw(s) };
    let s = sim();
    for t in 0..n {
        s.set_next(t);
    }
    let mut handles = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        handles.push(Some(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    GUARD.with(|_| ());
                    sim().up.fetch_add(1, Ordering::SeqCst);
                    fut_wake(&sim().up);
                    wait_go(&sim().ths[i].go);
                    TID.with(|t| t.set(i as i32));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                    r.is_ok()
                })
                .unwrap(),
        ));
        // Coming up takes locks of std as well.
        while s.up.load(Ordering::SeqCst) <= i as u32 {
            fut_wait(&s.up, i as u32);
        }
    }
    let mut ok = vec![false; n];
    if n > 0 {
        let first = match &cfg.explicit {
            Some(e) => e.iter().find(|d| d.2 == 'f').map(|d| d.3).filter(|v| *v < n).unwrap_or(0),
            None => {
                let v = s.rng.below(n);
                if v != 0 {
                    s.decisions.push(Decision(usize::MAX, 0, 'f', v));
                }
                v
            }
        };
        s.ths[first].go.store(1, Ordering::SeqCst);
        fut_wake(&s.ths[first].go);
        loop {
            wait_go(&s.ended);
            ok[s.gone] = handles[s.gone].take().unwrap().join().unwrap_or(false);
            match s.heir {
                Some(i) => {
                    s.ths[i].go.store(1, Ordering::SeqCst);
                    fut_wake(&s.ths[i].go);
                }
                None => break,
            }
        }
    }
    let s = unsafe { Box::from_raw(SIM) };
    unsafe { SIM = std::ptr::null_mut() };
    let mut st = s.st.clone();
    st.points = s.ths.iter().map(|t| t.pcount).sum();
    st.sim_ns = s.now;
    (st, s.decisions, ok)
}
/// Decisions so far, for a report from inside a run.
pub fn decisions_so_far() -> Vec<Decision> {
    unsafe {
        if SIM.is_null() {
            vec![]
        } else {
            (*SIM).decisions.clone()
        }
    }
}
pub fn stats_so_far() -> SchedStats {
    unsafe {
        if SIM.is_null() {
            SchedStats::default()
        } else {
            let mut st = (*SIM).st.clone();
            st.points = (*SIM).ths.iter().map(|t| t.pcount).sum();
            st.sim_ns = (*SIM).now;
            st
        }
    }
}
/// Progress counter of the running thread, for ordering events in a trace.
pub fn my_points() -> u64 {
    let t = tid();
    if t < 0 { 0 } else { sim().ths[t as usize].pcount }
}
