//! One simulated run: statistics, event log, violations, processes ("nodes").
use crate::rng::{fold, hash_bytes};
use crate::rt::{Decision, SchedStats};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Default, Clone, Serialize, Deserialize, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
}
#[derive(Default, Clone, Serialize, Deserialize, Debug)]
pub struct Out {
    pub violation: Option<Violation>,
    pub sched: SchedStats,
    pub ops: u64,
    pub nodes: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    /// Hash of everything observed: operations, results, switches.
    pub hash: u64,
    /// Hash of the interleaving / history shape only.
    pub shape: u64,
    pub checks: u64,
    /// The run ended early: what happened was not about the property checked.
    #[serde(default)]
    pub stopped: bool,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub decisions: Vec<Decision>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub trace: Vec<String>,
}
pub struct G {
    pub out: Out,
    pub fd: i32,
    pub tracing: bool,
    pub node: String,
}
static mut GLOBAL: *mut G = std::ptr::null_mut();
/// Only the thread that is scheduled (or the only thread) touches this.
pub fn g() -> &'static mut G {
    unsafe { &mut *GLOBAL }
}
pub fn init(fd: i32, tracing: bool) {
    let b = Box::new(G { out: Out::default(), fd, tracing, node: String::new() });
    unsafe { GLOBAL = Box::into_raw(b) };
}
fn who() -> String {
    let t = crate::rt::tid();
    let n = &g().node;
    match (n.is_empty(), t) {
        (true, -1) => "main".into(),
        (true, t) => format!("t{t}"),
        (false, -1) => n.clone(),
        (false, t) => format!("{n}/t{t}"),
    }
}
/// An operation of the workload starts: counted and part of the run's history.
pub fn op(label: &str) {
    let t = crate::rt::tid();
    let o = &mut g().out;
    o.ops += 1;
    let h = hash_bytes((t + 7) as u64, label.as_bytes());
    o.hash = fold(o.hash, h);
    o.shape = fold(o.shape, h);
    trace(|| format!("op {label}"));
}
/// An observation: part of the event log (hash) and the trace.
pub fn see(what: &str, val: &str) {
    let o = &mut g().out;
    o.hash = hash_bytes(o.hash, what.as_bytes());
    o.hash = hash_bytes(o.hash, val.as_bytes());
    trace(|| format!("  {what} = {}", clip(val, 400)));
}
pub fn clip(s: &str, n: usize) -> String {
    let s = s.replace('\n', "\\n");
    if s.chars().count() <= n { s } else { s.chars().take(n).collect::<String>() + "…" }
}
pub fn trace(f: impl FnOnce() -> String) {
    if g().tracing && g().out.trace.len() < 4000 {
        crate::alloc::outside(|| {
            let p = crate::rt::my_points();
            let l = format!("[{} @{}] {}", who(), p, f());
            g().out.trace.push(l);
        });
    }
}
pub fn fault(kind: &str) {
    *g().out.faults.entry(kind.to_string()).or_default() += 1;
    g().out.shape = hash_bytes(g().out.shape, kind.as_bytes());
    trace(|| format!("FAULT {kind}"));
}
pub fn probe(kind: &str) {
    *g().out.probes.entry(kind.to_string()).or_default() += 1;
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}
pub fn read_all(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    let mut buf = [0u8; 65536];
    loop {
        let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len()) };
        if n <= 0 {
            break;
        }
        v.extend_from_slice(&buf[..n as usize]);
    }
    v
}
pub fn finish() -> ! {
    let o = serde_json::to_vec(&g().out).unwrap();
    write_all(g().fd, &o);
    unsafe { libc::_exit(0) }
}
/// The run ends here: a property is violated.
pub fn violate(kind: &str, msg: String) -> ! {
    trace(|| format!("VIOLATION {kind}: {msg}"));
    let w = who();
    let o = &mut g().out;
    o.violation = Some(Violation { kind: kind.into(), msg: format!("[{w}] {msg}") });
    if crate::rt::tid() >= 0 {
        o.sched = crate::rt::stats_so_far();
        o.decisions = crate::rt::decisions_so_far();
    }
    if g().node.is_empty() {
        finish()
    }
    // In a forked node: the orchestrator passes it on.
    let o = serde_json::to_vec(&g().out).unwrap();
    write_all(g().fd, &o);
    unsafe { libc::_exit(0) }
}
/// Ends the run at once without a verdict.
pub fn stop_early() -> ! {
    let o = &mut g().out;
    if crate::rt::tid() >= 0 {
        o.sched = crate::rt::stats_so_far();
    }
    if g().node.is_empty() {
        finish()
    }
    g().out.stopped = true;
    let o = serde_json::to_vec(&g().out).unwrap();
    write_all(g().fd, &o);
    unsafe { libc::_exit(0) }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $k:expr, $($a:tt)*) => {{
        $crate::run::g().out.checks += 1;
        if !$c { $crate::run::violate($k, format!($($a)*)) }
    }};
}

/// Runs simulated threads and adds their statistics to the run.
pub fn threads(cfg: &crate::rt::Sched, bodies: Vec<crate::rt::Body>) -> Vec<bool> {
    let (st, dec, ok) = crate::rt::run_threads(cfg, bodies);
    let o = &mut g().out;
    o.hash = fold(o.hash, st.hash);
    o.shape = fold(o.shape, st.hash);
    let a = &mut o.sched;
    a.points += st.points;
    a.switches += st.switches;
    a.preemptions += st.preemptions;
    a.blocks += st.blocks;
    a.spurious += st.spurious;
    a.yields += st.yields;
    a.threads += st.threads;
    a.sim_ns += st.sim_ns;
    a.hash = fold(a.hash, st.hash);
    o.decisions = dec;
    ok
}

// ---- nodes: simulated processes, each a real forked process run in lock-step ----
#[derive(Debug)]
pub enum NodeEnd {
    Value(serde_json::Value),
    Crashed,
}
/// Exit used by a node to simulate a crash at this very point: nothing it held survives.
pub fn crash_here() -> ! {
    // What was observed before the crash still belongs to the history.
    let o = serde_json::to_vec(&(&g().out, Option::<serde_json::Value>::None)).unwrap();
    write_all(g().fd, b"C");
    write_all(g().fd, &o);
    unsafe { libc::_exit(0) }
}
/// Runs `f` as another process with pristine globals and returns its value.
pub fn node(name: &str, env_seed: u64, f: impl FnOnce() -> serde_json::Value) -> NodeEnd {
    let mut p = [0i32; 2];
    unsafe { libc::pipe(p.as_mut_ptr()) };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe { libc::close(p[0]) };
        let tracing = g().tracing;
        init(p[1], tracing);
        g().node = name.to_string();
        crate::rt::simulate_environment(env_seed);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        match r {
            Ok(v) => {
                let o = serde_json::to_vec(&(&g().out, Some(v))).unwrap();
                write_all(p[1], b"V");
                write_all(p[1], &o);
            }
            Err(e) => {
                let m = panic_text(&e);
                violate("panic", format!("unexpected panic in the workload: {m}"));
            }
        }
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(p[1]) };
    let data = read_all(p[0]);
    unsafe { libc::close(p[0]) };
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    g().out.nodes += 1;
    if libc::WIFSIGNALED(status) || data.is_empty() {
        violate("crash", format!("process {name} died: {}", died(status)));
    }
    let merge = |o: Out| {
        let m = &mut g().out;
        m.ops += o.ops;
        m.checks += o.checks;
        m.nodes += o.nodes;
        m.hash = fold(m.hash, o.hash);
        m.shape = fold(m.shape, o.shape);
        for (k, v) in o.faults {
            *m.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.probes {
            *m.probes.entry(k).or_default() += v;
        }
        m.sched.points += o.sched.points;
        m.sched.switches += o.sched.switches;
        m.sched.preemptions += o.sched.preemptions;
        m.sched.blocks += o.sched.blocks;
        m.sched.spurious += o.sched.spurious;
        m.sched.yields += o.sched.yields;
        m.sched.threads += o.sched.threads;
        m.sched.sim_ns += o.sched.sim_ns;
        m.trace.extend(o.trace);
        if !o.decisions.is_empty() {
            m.decisions = o.decisions;
        }
        if let Some(v) = o.violation {
            m.violation = Some(v);
            finish();
        }
        if o.stopped {
            finish();
        }
    };
    match data[0] {
        b'V' | b'C' => {
            let (o, v): (Out, Option<serde_json::Value>) = match serde_json::from_slice(&data[1..]) {
                Ok(x) => x,
                Err(e) => violate("harness", format!("bad node output: {e}")),
            };
            merge(o);
            match v {
                Some(v) => NodeEnd::Value(v),
                None => NodeEnd::Crashed,
            }
        }
        _ => {
            let o: Out = match serde_json::from_slice(&data) {
                Ok(x) => x,
                Err(e) => violate("harness", format!("bad node output: {e}")),
            };
            merge(o);
            NodeEnd::Crashed
        }
    }
}
pub fn died(status: i32) -> String {
    if libc::WIFSIGNALED(status) {
        format!("signal {}", libc::WTERMSIG(status))
    } else {
        format!("exit status {}", libc::WEXITSTATUS(status))
    }
}
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}
/// Calls code under test; a panic comes back as its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| panic_text(&e))
}
/// As `guarded`, but a panic violates the property.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match guarded(f) {
        Ok(v) => v,
        Err(m) => violate("panic", format!("{what} panicked: {}", clip(&m, 600))),
    }
}
