//! Runs many seeds in parallel, each in its own process forked from a pristine parent; confirms,
//! minimises and records violations; replays recorded ones; writes what was covered.
use crate::rng::{fold, mix, Rng};
use crate::run::{self, Out, Violation};
use crate::scen::{self, Scenario};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::time::{Duration, Instant};

const RUN_TIMEOUT: Duration = Duration::from_secs(40);

fn seed_of(base: u64, id: &str, i: u64) -> u64 {
    let mut h = mix(base);
    for b in id.bytes() {
        h = fold(h, b as u64);
    }
    fold(h, i)
}

/// Executes one plan in a forked child.
pub fn run_forked(s: &Scenario, make: impl FnOnce() -> Value, env_seed: u64, tracing: bool, timeout: Duration) -> Out {
    let mut p = [0i32; 2];
    unsafe { libc::pipe(p.as_mut_ptr()) };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            libc::close(p[0]);
            libc::setpgid(0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if std::env::var_os("SIM_STDERR").is_none() {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                libc::dup2(n, 2);
                libc::dup2(n, 1);
            }
        }
        exec_here(s, make(), env_seed, p[1], tracing);
    }
    unsafe { libc::close(p[1]) };
    let t0 = Instant::now();
    let mut data = vec![];
    let mut buf = [0u8; 65536];
    let mut timed_out = false;
    loop {
        let left = timeout.saturating_sub(t0.elapsed());
        let mut pf = libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut pf, 1, left.as_millis().min(1 << 30) as i32) };
        if n == 0 {
            timed_out = true;
            break;
        }
        if n < 0 {
            continue;
        }
        let n = unsafe { libc::read(p[0], buf.as_mut_ptr() as *mut _, buf.len()) };
        if n <= 0 {
            break;
        }
        data.extend_from_slice(&buf[..n as usize]);
    }
    unsafe { libc::close(p[0]) };
    if timed_out {
        unsafe {
            libc::kill(-pid, libc::SIGKILL);
            libc::kill(pid, libc::SIGKILL);
        }
    }
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    if timed_out {
        return Out {
            violation: Some(Violation { kind: "hang".into(), msg: format!("the run made no progress for {} s", timeout.as_secs()) }),
            ..Default::default()
        };
    }
    match serde_json::from_slice::<Out>(&data) {
        Ok(o) => o,
        Err(_) => Out {
            violation: Some(Violation { kind: "crash".into(), msg: format!("the process died: {}", run::died(status)) }),
            ..Default::default()
        },
    }
}
fn exec_here(s: &Scenario, plan: Value, env_seed: u64, fd: i32, tracing: bool) -> ! {
    run::init(fd, tracing);
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        run::trace(|| format!("panic: {}", run::clip(&m, 300)));
    }));
    crate::rt::simulate_environment(env_seed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.exec)(plan)));
    if let Err(e) = r {
        run::violate("panic", format!("unexpected panic: {}", run::clip(&run::panic_text(&e), 600)));
    }
    run::finish()
}
fn env_seed(seed: u64) -> u64 {
    mix(seed ^ 0xE17)
}
fn draw(s: &Scenario, seed: u64, thorough: bool) -> Value {
    (s.draw)(&mut Rng::new(seed), thorough)
}
fn one(s: &'static Scenario, seed: u64, thorough: bool, tracing: bool) -> Out {
    run_forked(s, || draw(s, seed, thorough), env_seed(seed), tracing, RUN_TIMEOUT)
}

#[derive(Default, serde::Serialize, serde::Deserialize)]
struct Agg {
    runs: u64,
    ops: u64,
    checks: u64,
    nodes: u64,
    nontrivial: u64,
    points: u64,
    switches: u64,
    preemptions: u64,
    blocks: u64,
    spurious: u64,
    threads: u64,
    multi: u64,
    sim_ns: u64,
    faulty_runs: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    shapes: Vec<u64>,
    hashes: Vec<u64>,
    resampled: u64,
    same: u64,
    violations: Vec<(u64, Violation)>,
}
impl Agg {
    fn add(&mut self, o: &Out) {
        self.runs += 1;
        self.ops += o.ops;
        self.checks += o.checks;
        self.nodes += o.nodes;
        let nf: u64 = o.faults.values().sum();
        if o.sched.switches > 0 || o.sched.threads > 1 || nf > 0 || o.nodes > 1 {
            self.nontrivial += 1;
            self.shapes.push(o.shape);
        }
        self.hashes.push(o.hash);
        self.faulty_runs += (nf > 0) as u64;
        self.points += o.sched.points;
        self.switches += o.sched.switches;
        self.preemptions += o.sched.preemptions;
        self.blocks += o.sched.blocks;
        self.spurious += o.sched.spurious;
        self.threads += o.sched.threads;
        self.multi += (o.sched.threads > 1) as u64;
        self.sim_ns += o.sched.sim_ns;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
    }
    fn merge(&mut self, b: Agg) {
        self.runs += b.runs;
        self.ops += b.ops;
        self.checks += b.checks;
        self.nodes += b.nodes;
        self.nontrivial += b.nontrivial;
        self.points += b.points;
        self.switches += b.switches;
        self.preemptions += b.preemptions;
        self.blocks += b.blocks;
        self.spurious += b.spurious;
        self.threads += b.threads;
        self.multi += b.multi;
        self.sim_ns += b.sim_ns;
        self.faulty_runs += b.faulty_runs;
        self.resampled += b.resampled;
        self.same += b.same;
        for (k, v) in b.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in b.probes {
            *self.probes.entry(k).or_default() += v;
        }
        self.shapes.extend(b.shapes);
        self.hashes.extend(b.hashes);
        self.violations.extend(b.violations);
    }
}

fn opt<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    opt(a, k).and_then(|s| s.parse().ok()).unwrap_or(d)
}

pub fn main(a: &[String]) {
    // Identical addresses in every process: nothing in a run may depend on them, but if something
    // does it still replays.
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur != -1 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            if libc::personality(cur as u64 | libc::ADDR_NO_RANDOMIZE as u64) != -1 {
                std::env::set_var("SIM_REEXEC", "1");
                use std::os::unix::process::CommandExt;
                let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
            }
        }
    }
    match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(a),
        Some("check") => check(a),
        Some("replay") => replay(a),
        Some("one") => {
            let s = scen::find(opt(a, "--prop").unwrap());
            let seed = match opt(a, "--seed") {
                Some(x) => x.parse().unwrap(),
                None => seed_of(num(a, "--base", 1), s.id, num(a, "--index", 0)),
            };
            println!("{}", serde_json::to_string(&draw(s, seed, false)).unwrap());
            let o = one(s, seed, false, true);
            for l in &o.trace {
                println!("{l}");
            }
            println!("{:?}\n{:?} ops={} checks={} faults={:?} probes={:?} hash={:x}", o.violation, o.sched, o.ops, o.checks, o.faults, o.probes, o.hash);
        }
        _ => {
            eprintln!("usage: sim check|worker|replay|one ...");
            std::process::exit(2);
        }
    }
}

fn worker(a: &[String]) {
    let s = scen::find(opt(a, "--prop").unwrap());
    let base = num(a, "--base", 1);
    let thorough = opt(a, "--tier") == Some("thorough");
    let (first, stride, runs) = (num(a, "--first", 0), num(a, "--stride", 1), num(a, "--runs", 1));
    let deadline = Instant::now() + Duration::from_secs(num(a, "--time", 60));
    let resample = num(a, "--resample", 0);
    let mut agg = Agg::default();
    let mut i = first;
    while i < runs && Instant::now() < deadline {
        let seed = seed_of(base, s.id, i);
        let o = one(s, seed, thorough, false);
        agg.add(&o);
        if agg.resampled < resample && i % 7 == first % 7 {
            let p = one(s, seed, thorough, false);
            agg.resampled += 1;
            agg.same += (p.hash == o.hash) as u64;
        }
        if let Some(v) = o.violation {
            agg.violations.push((seed, v));
            if agg.violations.len() >= 3 {
                break;
            }
        }
        i += stride;
    }
    let mut out = std::io::stdout().lock();
    writeln!(out, "{}", serde_json::to_string(&agg).unwrap()).unwrap();
}

fn check(a: &[String]) {
    let s = scen::find(opt(a, "--prop").unwrap());
    let base = num(a, "--base", 1);
    let tier = opt(a, "--tier").unwrap_or("quick").to_string();
    let thorough = tier == "thorough";
    let share: f64 = opt(a, "--share").and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let runs = num(a, "--runs", (share * (if thorough { s.quick_runs * 40 } else { s.quick_runs }) as f64) as u64);
    let time = num(a, "--time", if thorough { 900 } else { 60 });
    let workers = num(a, "--workers", 8);
    let variant = opt(a, "--variant").unwrap_or("?").to_string();
    let replay_dir = opt(a, "--replay-dir").unwrap_or("/tmp").to_string();
    let known: Vec<Value> = opt(a, "--known")
        .and_then(|f| std::fs::read_to_string(f).ok())
        .and_then(|t| serde_json::from_str::<Value>(&t).ok())
        .and_then(|v| v["findings"].as_array().cloned())
        .unwrap_or_default();
    let t0 = Instant::now();
    let mut kids = vec![];
    for w in 0..workers {
        let c = std::process::Command::new("/proc/self/exe")
            .args(["worker", "--prop", s.id, "--base", &base.to_string(), "--tier", &tier])
            .args(["--first", &w.to_string(), "--stride", &workers.to_string(), "--runs", &runs.to_string()])
            .args(["--time", &time.to_string(), "--resample", if thorough { "200" } else { "12" }])
            .stdout(std::process::Stdio::piped())
            .spawn()
            .expect("spawn worker");
        kids.push(c);
    }
    let mut agg = Agg::default();
    let mut worker_errors = 0;
    for mut k in kids {
        let mut line = String::new();
        BufReader::new(k.stdout.take().unwrap()).read_line(&mut line).ok();
        let _ = k.wait();
        match serde_json::from_str::<Agg>(&line) {
            Ok(b) => agg.merge(b),
            Err(_) => worker_errors += 1,
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut reported = vec![];
    let mut knowns = vec![];
    let mut unreproduced = 0u64;
    let mut harness = vec![];
    agg.violations.sort_by_key(|x| x.0);
    let mut kinds: HashSet<String> = HashSet::new();
    for (seed, v) in agg.violations.clone() {
        if v.kind == "harness" || v.kind == "invalid-plan" {
            harness.push(v.msg.clone());
            continue;
        }
        if kinds.contains(&v.kind) || kinds.len() >= 3 {
            continue;
        }
        // Confirm in fresh processes.
        let t = if v.kind == "hang" { RUN_TIMEOUT * 3 } else { RUN_TIMEOUT };
        let again = (0..3).any(|_| {
            let o = run_forked(s, || draw(s, seed, thorough), env_seed(seed), false, t);
            o.violation.map(|x| x.kind == v.kind).unwrap_or(false)
        });
        if !again {
            eprintln!("note: seed {seed} once ended as '{}' and not again: {}", v.kind, v.msg);
            unreproduced += 1;
            continue;
        }
        kinds.insert(v.kind.clone());
        let (plan, out) = minimise(s, draw(s, seed, thorough), env_seed(seed), &v.kind);
        let viol = out.violation.clone().unwrap_or(v.clone());
        if let Some(k) = known.iter().find(|k| {
            k["property"] == s.id
                && k["kind"].as_str() == Some(&viol.kind)
                && k["match"].as_str().map(|m| viol.msg.contains(m)).unwrap_or(true)
        }) {
            knowns.push(json!({"property": s.id, "what": k["what"], "msg": viol.msg}));
            continue;
        }
        let path = format!("{replay_dir}/{}-{}-{:016x}.json", s.id, variant, seed);
        let file = json!({
            "property": s.id, "variant": variant, "seed": seed, "env_seed": env_seed(seed),
            "violation": viol, "plan": plan, "decisions": out.decisions, "trace": out.trace,
            "replay": format!("python3 /verif/check.py replay {path}"),
        });
        std::fs::create_dir_all(&replay_dir).ok();
        std::fs::write(&path, serde_json::to_vec_pretty(&file).unwrap()).ok();
        reported.push(json!({"path": path, "kind": viol.kind, "msg": viol.msg, "seed": seed}));
    }
    let shapes: HashSet<u64> = agg.shapes.iter().copied().collect();
    let hashes: HashSet<u64> = agg.hashes.iter().copied().collect();
    let res = json!({
        "property": s.id, "variant": variant, "tier": tier, "seed": base, "rule": s.rule,
        "runs": agg.runs, "planned": runs, "distinct_nontrivial": shapes.len(), "distinct_histories": hashes.len(),
        "ops": agg.ops, "oracle_checks": agg.checks, "nodes": agg.nodes, "threads": agg.threads,
        "multi_thread_runs": agg.multi, "points": agg.points, "switches": agg.switches,
        "preemptions": agg.preemptions, "blocks": agg.blocks, "spurious_wakeups": agg.spurious,
        "sim_ns": agg.sim_ns, "faulty_runs": agg.faulty_runs, "faults": agg.faults, "probes": agg.probes,
        "determinism_resampled": agg.resampled, "determinism_same": agg.same, "unreproduced": unreproduced,
        "search_s": search_s, "wall_s": t0.elapsed().as_secs_f64(), "worker_errors": worker_errors,
        "harness_errors": harness, "violations": reported, "known": knowns,
        "samples": samples(s, base, thorough),
    });
    println!("{}", serde_json::to_string(&res).unwrap());
}
fn samples(s: &'static Scenario, base: u64, thorough: bool) -> Vec<Value> {
    (0..2)
        .map(|i| {
            let seed = seed_of(base, s.id, i);
            let o = one(s, seed, thorough, true);
            let mut t = o.trace;
            t.truncate(30);
            json!({"seed": seed, "hash": format!("{:016x}", o.hash), "trace": t})
        })
        .collect()
}

// ---- minimisation ----
fn same(o: &Out, kind: &str) -> bool {
    o.violation.as_ref().map(|v| v.kind == kind).unwrap_or(false)
}
/// Every array in the plan, by JSON pointer.
fn arrays(v: &Value, at: String, out: &mut Vec<(String, usize, bool)>) {
    match v {
        Value::Array(a) => {
            // Leave pairs such as ["color", "red"] or [3, true] alone.
            if !a.is_empty() && a.iter().any(|x| x.is_object() || x.is_array() || x.is_string()) {
                // These stay non-empty: without them the plan would mean something else.
                let keep = ["/sels", "/body", "/frames", "/decls", "/items"].iter().any(|k| at.ends_with(k));
                out.push((at.clone(), a.len(), keep));
            }
            for (i, x) in a.iter().enumerate() {
                arrays(x, format!("{at}/{i}"), out);
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                arrays(x, format!("{at}/{k}"), out);
            }
        }
        _ => {}
    }
}
fn minimise(s: &'static Scenario, mut plan: Value, env: u64, kind: &str) -> (Value, Out) {
    let deadline = Instant::now() + Duration::from_secs(if kind == "hang" { 1 } else { 45 });
    let t = if kind == "hang" { RUN_TIMEOUT * 3 } else { Duration::from_secs(15) };
    let mut tries = 0;
    let mut attempt = |p: &Value| -> bool {
        tries += 1;
        same(&run_forked(s, || p.clone(), env, false, t), kind)
    };
    let mut progress = true;
    while progress && Instant::now() < deadline {
        progress = false;
        let mut arrs = vec![];
        arrays(&plan, String::new(), &mut arrs);
        arrs.sort_by_key(|x| std::cmp::Reverse(x.1));
        'arr: for (ptr, n, keep) in arrs {
            let mut chunk = n;
            while chunk >= 1 {
                let mut start = 0;
                loop {
                    if Instant::now() > deadline {
                        break 'arr;
                    }
                    let len = match plan.pointer(&ptr).and_then(|x| x.as_array()) {
                        Some(x) => x.len(),
                        None => continue 'arr,
                    };
                    if start >= len {
                        break;
                    }
                    if keep && chunk >= len {
                        break;
                    }
                    let mut q = plan.clone();
                    let arr = q.pointer_mut(&ptr).unwrap().as_array_mut().unwrap();
                    arr.drain(start..(start + chunk).min(len));
                    if attempt(&q) {
                        plan = q;
                        progress = true;
                    } else {
                        start += chunk;
                    }
                }
                chunk /= 2;
            }
        }
    }
    // Then the schedule: make the decisions explicit and drop those that do not matter.
    let mut out = run_forked(s, || plan.clone(), env, false, t);
    if plan.get("sched").is_some() && !out.decisions.is_empty() {
        let mut dec = out.decisions.clone();
        let with = |d: &[crate::rt::Decision]| {
            let mut q = plan.clone();
            q["sched"]["explicit"] = serde_json::to_value(d).unwrap();
            q
        };
        if same(&run_forked(s, || with(&dec), env, false, t), kind) {
            let deadline = Instant::now() + Duration::from_secs(30);
            let mut chunk = dec.len();
            while chunk >= 1 {
                let mut i = 0;
                while i < dec.len() && Instant::now() < deadline {
                    let mut d = dec.clone();
                    d.drain(i..(i + chunk).min(dec.len()));
                    if same(&run_forked(s, || with(&d), env, false, t), kind) {
                        dec = d;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
            let q = with(&dec);
            plan = q;
            let mut o = run_forked(s, || plan.clone(), env, true, t);
            o.decisions = dec;
            if same(&o, kind) {
                return (plan, o);
            }
        }
    }
    let o = run_forked(s, || plan.clone(), env, true, t);
    if same(&o, kind) {
        let mut o = o;
        o.decisions = out.decisions;
        return (plan, o);
    }
    out.trace.push("(the traced run behaved differently)".into());
    (plan, out)
}

fn replay(a: &[String]) {
    let f = a.get(1).expect("replay FILE");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(f).expect("read replay file")).expect("json");
    let s = scen::find(v["property"].as_str().unwrap());
    let plan = v["plan"].clone();
    let env = v["env_seed"].as_u64().unwrap();
    let o = run_forked(s, || plan, env, true, RUN_TIMEOUT * 3);
    for l in &o.trace {
        println!("{l}");
    }
    match &o.violation {
        Some(x) => {
            println!("REPRODUCED kind={} {}", x.kind, x.msg);
            let same = x.kind == v["violation"]["kind"].as_str().unwrap_or("");
            if !same {
                println!("(recorded kind was {})", v["violation"]["kind"]);
            }
            println!("VIOLATION property={} replay={}", s.id, f);
            std::process::exit(1);
        }
        None => {
            println!("the recorded violation does not occur on this tree");
        }
    }
}
