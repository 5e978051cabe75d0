//! C14: styles and managers are released when nobody uses them. Every byte the code under test
//! allocates is counted; what is still allocated must fit what is still registered or referenced.
use super::world::{activate, calm, seed_rng, Sty};
use super::*;
use crate::rt::{self, Sched};
use crate::{alloc, must, run};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use stylist::ast::Sheet;
use stylist::manager::{render_static, StaticReader, StyleData, StyleManager};
use stylist::{GlobalStyle, Style};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Mgr { writer: bool },
    CloneMgr(usize),
    DropMgr(usize),
    Create { m: usize, g: bool, prefix: bool, s: usize, how: u8 },
    Clone(usize),
    Drop(usize),
    Unreg(usize),
    Bad { m: usize, s: usize },
    Read(usize),
    DropReader(usize),
    DropData(usize),
    Load { m: usize, d: usize, wire: u8 },
    /// The same again and again: nothing may pile up.
    Cycle { m: usize, g: bool, s: usize, n: usize },
    /// All handles of a manager's styles are dropped, the manager lives on.
    Sweep(usize),
    Yield,
    Die,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    sched: Sched,
    /// Sizes of the sheets, their kind.
    sheets: Vec<(usize, u8)>,
    threads: Vec<(u64, Vec<Op>)>,
}
fn draw(r: &mut Rng, thorough: bool) -> Value {
    let sheets: Vec<(usize, u8)> = (0..r.range(1, 5)).map(|_| (*r.pick(&[1_500, 3_000, 6_000, 9_000]), r.below(4) as u8)).collect();
    let threads = (0..*r.pick(&[1, 1, 2, 3]))
        .map(|_| {
            let n = r.range(5, if thorough { 60 } else { 30 });
            let big = |r: &mut Rng| r.below(64);
            let ops = (0..n)
                .map(|i| match if i == 0 { 0 } else { r.below(40) } {
                    0..=2 => Op::Mgr { writer: r.chance(1, 3) },
                    3 => Op::CloneMgr(big(r)),
                    4..=6 => Op::DropMgr(big(r)),
                    7..=17 => Op::Create { m: big(r), g: r.chance(1, 3), prefix: r.chance(1, 4), s: big(r), how: r.below(6) as u8 },
                    18 | 19 => Op::Clone(big(r)),
                    20..=23 => Op::Drop(big(r)),
                    24..=28 => Op::Unreg(big(r)),
                    29 => Op::Bad { m: big(r), s: big(r) },
                    30 | 31 => Op::Read(big(r)),
                    32 => Op::DropReader(big(r)),
                    33 => Op::DropData(big(r)),
                    34 | 35 => Op::Load { m: big(r), d: big(r), wire: r.below(3) as u8 },
                    36 => Op::Cycle { m: big(r), g: r.chance(1, 3), s: big(r), n: r.range(2, if thorough { 40 } else { 12 }) },
                    37 => Op::Sweep(big(r)),
                    38 => Op::Yield,
                    _ => if r.chance(1, 3) { Op::Die } else { Op::Yield },
                })
                .collect();
            (r.next(), ops)
        })
        .collect();
    serde_json::to_value(Plan { sched: Sched::draw(r), sheets, threads }).unwrap()
}
fn sheet_text(i: usize, size: usize, kind: u8) -> String {
    let x = |n: usize| "x".repeat(n);
    match kind % 4 {
        0 => format!("margin: {i}px; content: \"{}\";", x(size)),
        1 => format!("margin: {i}px; .a{} {{ color: red; }}", x(size)),
        2 => format!("margin: {i}px; @media (min-width: {i}px) {{ content: \"{}\"; .b & {{ color: blue; }} }}", x(size)),
        _ => {
            let mut s = format!("margin: {i}px;");
            for k in 0..size / 120 {
                s += &format!(" .c{k} {{ padding: {k}px; color: red; }}");
            }
            s
        }
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
struct Key {
    g: bool,
    prefix: bool,
    s: usize,
}
/// One style, from its creation on.
struct Inst {
    cost: i64,
    handles: usize,
    registered: bool,
    m: usize,
}
struct Mgr {
    mgrs: Vec<StyleManager>,
    default: bool,
    writer: bool,
    reader: Option<StaticReader>,
    reg: BTreeMap<Key, (String, usize)>,
    caps: Vec<(i64, Key, String)>,
    made: i64,
}
struct W {
    t: usize,
    single: bool,
    texts: Arc<Vec<(String, Vec<u8>)>>,
    mgrs: Vec<Mgr>,
    insts: Vec<Inst>,
    hs: Vec<(Sty, usize, String, String, Key)>,
    data: Vec<(StyleData, i64, Vec<(Key, String)>)>,
    base: i64,
}
fn used() -> i64 {
    alloc::live().0
}
impl W {
    fn live(&self, i: usize) -> Option<usize> {
        let l: Vec<usize> = (0..self.mgrs.len()).filter(|m| !self.mgrs[*m].mgrs.is_empty()).collect();
        if l.is_empty() { None } else { Some(l[i % l.len()]) }
    }
    fn make(&self, m: usize, g: bool, prefix: bool, s: usize, how: u8) -> Result<Sty, String> {
        let (text, wire) = &self.texts[s];
        let mgr = &self.mgrs[m].mgrs[0];
        let e = |e: stylist::Error| e.to_string();
        let src: stylist::StyleSource = match how {
            0 | 1 => text.as_str().try_into().map_err(e)?,
            2 => text.clone().try_into().map_err(e)?,
            3 => text.parse::<Sheet>().map_err(e)?.into(),
            // A sheet of its own.
            _ => bincode::deserialize::<Sheet>(wire).map_err(|e| e.to_string())?.into(),
        };
        match (g, prefix, self.mgrs[m].default) {
            (true, _, true) => GlobalStyle::new(src).map(Sty::G),
            (true, _, false) => GlobalStyle::new_with_manager(src, mgr).map(Sty::G),
            (false, false, true) => Style::new(src).map(Sty::S),
            (false, true, true) => Style::create("other", src).map(Sty::S),
            (false, false, false) => Style::new_with_manager(src, mgr).map(Sty::S),
            (false, true, false) => Style::create_with_manager("other", src, mgr.clone()).map(Sty::S),
        }
        .map_err(e)
    }
    fn create(&mut self, m: usize, g: bool, prefix: bool, s: usize, how: u8) {
        let key = Key { g, prefix, s };
        let before = used();
        let single = self.single;
        let r = calm("C14", "creating a style", || alloc::inside(|| self.make(m, g, prefix, s, how)));
        let cost = if single { used() - before } else { 0 };
        let sty = match r {
            Ok(s) => s,
            Err(e) => super::world::broken("C14", "create-failed", e),
        };
        let (id, text) = (sty.id(), sty.text());
        let cost = if single { cost } else { 3 * text.len() as i64 + self.texts[s].1.len() as i64 * 10 + 4096 };
        let i = match self.mgrs[m].reg.get(&key) {
            Some((had, i)) => {
                must!("C14", *had == id, "ended-early", "style {had} is registered and nobody unregistered it, but a request for it made {id}");
                *i
            }
            None => {
                self.mgrs[m].made += 1;
                self.insts.push(Inst { cost, handles: 0, registered: true, m });
                let i = self.insts.len() - 1;
                self.mgrs[m].reg.insert(key.clone(), (id.clone(), i));
                if self.mgrs[m].writer {
                    self.mgrs[m].caps.push((text.len() as i64 + cost, key.clone(), id.clone()));
                }
                i
            }
        };
        self.insts[i].handles += 1;
        self.hs.push((sty, i, id, text, key));
    }
    fn drop_handle(&mut self, i: usize) {
        let (sty, n, ..) = self.hs.swap_remove(i);
        calm("C14", "dropping a handle", || alloc::inside(|| drop(sty)));
        self.insts[n].handles -= 1;
    }
    fn unregister(&mut self, i: usize) {
        let (n, key) = (self.hs[i].1, self.hs[i].4.clone());
        calm("C14", "unregister", || alloc::inside(|| self.hs[i].0.unregister()));
        let m = self.insts[n].m;
        if !self.mgrs[m].writer {
            self.insts[n].registered = false;
            if self.mgrs[m].reg.get(&key).map(|x| x.1 == n).unwrap_or(false) {
                self.mgrs[m].reg.remove(&key);
            }
        }
    }
    fn drop_mgr(&mut self, m: usize) {
        let x = self.mgrs[m].mgrs.pop();
        calm("C14", "dropping a manager", || alloc::inside(|| drop(x)));
        if self.mgrs[m].mgrs.is_empty() {
            self.mgrs[m].reg.clear();
            for i in self.insts.iter_mut().filter(|i| i.m == m) {
                i.registered = false;
            }
        }
    }
    /// Everything allocated belongs to something that is alive.
    fn check(&self) {
        for (s, _, id, text, _) in &self.hs {
            must!("C14", s.id() == *id && s.text() == *text, "handle-changed", "the handle of {id} now says {} ({} bytes of text, was {})", s.id(), s.text().len(), text.len());
            if let Some(c) = s.class() {
                must!("C14", c == *id, "handle-changed", "the handle of {id} now has class {c}");
            }
        }
        if !self.single {
            return;
        }
        let mut bound = 0;
        for i in &self.insts {
            if i.registered || i.handles > 0 {
                bound += i.cost.max(0) + 256;
            }
        }
        for m in &self.mgrs {
            // What a manager leaves in its tables, and for the weak references of handles.
            let dead = m.mgrs.is_empty();
            bound += if dead { 512 } else { 2048 + 200 * m.made };
            if m.writer && (!dead || m.reader.is_some()) {
                bound += m.caps.iter().map(|c| 2 * c.0 + 600).sum::<i64>() + 512;
            }
        }
        for d in &self.data {
            bound += d.1;
        }
        let now = used() - self.base;
        run::see("live", &now.to_string());
        must!("C14", now <= bound, "not-released", "{now} bytes of stylist's are allocated, but what is registered or referenced accounts for {bound} at most: {} handles, {} styles made", self.hs.len(), self.insts.len());
        if self.mgrs.iter().all(|m| m.mgrs.is_empty() && m.reader.is_none()) && self.hs.is_empty() && self.data.is_empty() {
            run::probe("all-released");
            must!("C14", now == 0, "leak", "nothing of stylist's is in use, but {now} bytes in {} blocks are allocated", alloc::live().1);
        }
    }
    fn step(&mut self, op: &Op) {
        run::op(&format!("{op:?}"));
        let n = self.texts.len();
        match op {
            Op::Mgr { writer } => {
                if self.mgrs.len() < 12 {
                    let (mgr, reader) = alloc::inside(|| {
                        let b = StyleManager::builder().prefix("p".into());
                        if *writer {
                            let (w, r) = render_static();
                            (b.writer(w).build(), Some(r))
                        } else {
                            (b.build(), None)
                        }
                    });
                    self.mgrs.push(Mgr { mgrs: vec![mgr.unwrap()], default: false, writer: *writer, reader, reg: BTreeMap::new(), caps: vec![], made: 0 });
                }
            }
            Op::CloneMgr(m) => {
                if let Some(m) = self.live(*m) {
                    let c = self.mgrs[m].mgrs[0].clone();
                    self.mgrs[m].mgrs.push(c);
                }
            }
            Op::DropMgr(m) => {
                if let Some(m) = self.live(*m) {
                    if !self.mgrs[m].default {
                        self.drop_mgr(m);
                    }
                }
            }
            Op::Create { m, g, prefix, s, how } => {
                if let Some(m) = self.live(*m) {
                    self.create(m, *g, *prefix && !*g, s % n, *how);
                }
            }
            Op::Clone(i) => {
                if !self.hs.is_empty() {
                    let h = &self.hs[i % self.hs.len()];
                    let c = alloc::inside(|| h.0.dup());
                    let c = (c, h.1, h.2.clone(), h.3.clone(), h.4.clone());
                    self.insts[c.1].handles += 1;
                    self.hs.push(c);
                }
            }
            Op::Drop(i) => {
                if !self.hs.is_empty() {
                    self.drop_handle(i % self.hs.len());
                }
            }
            Op::Unreg(i) => {
                if !self.hs.is_empty() {
                    self.unregister(i % self.hs.len());
                }
            }
            Op::Bad { m, s } => {
                if let Some(m) = self.live(*m) {
                    run::fault("create.malformed");
                    let t = format!("{} {{ .q {{", self.texts[s % n].0);
                    let mgr = self.mgrs[m].mgrs[0].clone();
                    let before = alloc::live();
                    let single = self.single;
                    let _ = run::guarded(|| alloc::inside(|| Style::new_with_manager(t.as_str(), &mgr).is_ok()));
                    if single {
                        must!("C14", alloc::live().0 <= before.0, "leak", "a failed creation left {} bytes allocated", alloc::live().0 - before.0);
                    }
                }
            }
            Op::Read(m) => {
                let l: Vec<usize> = (0..self.mgrs.len()).filter(|j| self.mgrs[*j].reader.is_some()).collect();
                if !l.is_empty() {
                    let m = l[m % l.len()];
                    let r = self.mgrs[m].reader.take().unwrap();
                    let d = calm("C14", "reading style data", || alloc::inside(|| r.read_style_data()));
                    // Shared with the manager while that lives and makes no more styles.
                    let cost = self.mgrs[m].caps.iter().map(|c| 2 * c.0 + 600).sum::<i64>() + 512;
                    let keys = self.mgrs[m].caps.iter().map(|(_, k, id)| (k.clone(), id.clone())).collect();
                    self.data.push((d, cost, keys));
                }
            }
            Op::DropReader(m) => {
                let l: Vec<usize> = (0..self.mgrs.len()).filter(|j| self.mgrs[*j].reader.is_some()).collect();
                if !l.is_empty() {
                    let r = self.mgrs[l[m % l.len()]].reader.take();
                    alloc::inside(|| drop(r));
                }
            }
            Op::DropData(d) => {
                if !self.data.is_empty() {
                    let d = self.data.swap_remove(d % self.data.len());
                    alloc::inside(|| drop(d.0));
                }
            }
            Op::Load { m, d, wire } => {
                let Some(m) = self.live(*m) else { return };
                if self.data.is_empty() || self.mgrs[m].writer || self.mgrs[m].default {
                    return;
                }
                let d = &self.data[d % self.data.len()];
                if d.2.iter().any(|(k, id)| self.mgrs[m].reg.get(k).map(|x| x.0 != *id).unwrap_or(false) || self.hs.iter().any(|h| h.2 == *id)) {
                    return;
                }
                let mgr = self.mgrs[m].mgrs[0].clone();
                let before = used();
                let r = calm("C14", "loading style data", || {
                    run::guarded(|| {
                        alloc::inside(|| {
                            let x = match wire {
                                0 => d.0.clone(),
                                1 => serde_json::from_str(&serde_json::to_string(&d.0).unwrap()).unwrap(),
                                _ => bincode::deserialize(&bincode::serialize(&d.0).unwrap()).unwrap(),
                            };
                            mgr.load_style_data(&x)
                        })
                    })
                });
                if r.is_err() {
                    return;
                }
                let got: Vec<(Key, String)> = d.2.iter().filter(|(k, _)| !self.mgrs[m].reg.contains_key(k)).map(|(k, id)| (k.clone(), id.clone())).collect();
                let each = if self.single { (used() - before).max(0) / got.len().max(1) as i64 + 256 } else { 0 };
                for (k, id) in got {
                    self.mgrs[m].made += 1;
                    self.insts.push(Inst { cost: each, handles: 0, registered: true, m });
                    let i = self.insts.len() - 1;
                    self.mgrs[m].reg.insert(k, (id, i));
                }
            }
            Op::Cycle { m, g, s, n: k } => {
                let Some(m) = self.live(*m) else { return };
                let s = s % n;
                if self.mgrs[m].writer || self.mgrs[m].reg.contains_key(&Key { g: *g, prefix: false, s }) {
                    return;
                }
                for j in 0..*k {
                    self.create(m, *g, false, s, (j % 6) as u8);
                    let h = self.hs.len() - 1;
                    self.unregister(h);
                    self.drop_handle(h);
                }
                self.mgrs[m].made -= *k as i64 - 1;
            }
            Op::Sweep(m) => {
                if let Some(m) = self.live(*m) {
                    while let Some(i) = (0..self.hs.len()).find(|i| self.insts[self.hs[*i].1].m == m) {
                        self.drop_handle(i);
                    }
                }
            }
            Op::Yield => rt::yield_now(),
            Op::Die => {
                run::fault("thread.death");
                panic!("injected death");
            }
        }
        self.check();
    }
}
fn body(t: usize, single: bool, rng: u64, ops: Vec<Op>, texts: Arc<Vec<(String, Vec<u8>)>>) {
    seed_rng(rng);
    let mut w = W { t, single, texts, mgrs: vec![], insts: vec![], hs: vec![], data: vec![], base: used() };
    // The thread's default manager, as long as the thread lives.
    if rng % 3 == 0 {
        let d = alloc::inside(StyleManager::default);
        w.mgrs.push(Mgr { mgrs: vec![d], default: true, writer: false, reader: None, reg: BTreeMap::new(), caps: vec![], made: 0 });
    }
    for op in &ops {
        w.step(op);
    }
    run::trace(|| format!("t{} ends", w.t));
    // In an order that depends on the run: managers before handles or after them.
    if rng % 2 == 0 {
        for m in 0..w.mgrs.len() {
            while !w.mgrs[m].default && !w.mgrs[m].mgrs.is_empty() {
                w.drop_mgr(m);
            }
        }
        w.check();
    }
    while !w.hs.is_empty() {
        w.drop_handle(rng as usize % w.hs.len());
    }
    w.check();
    for m in 0..w.mgrs.len() {
        while !w.mgrs[m].mgrs.is_empty() && !w.mgrs[m].default {
            w.drop_mgr(m);
        }
        w.mgrs[m].reader = None;
    }
    w.data.clear();
    w.check();
}
fn exec(v: Value) {
    let p: Plan = plan(v);
    activate("C14");
    if p.sheets.is_empty() {
        return;
    }
    // What parsing keeps for the life of the process does not count.
    let mut texts = vec![];
    for (i, (n, k)) in p.sheets.iter().enumerate() {
        let t = sheet_text(i, (*n).min(100_000), *k);
        let s: Sheet = match t.parse() {
            Ok(s) => s,
            Err(e) => crate::run::violate("harness", format!("{e}")),
        };
        texts.push((t, bincode::serialize(&s).unwrap()));
    }
    let _ = HashMap::<u8, u8>::new();
    let texts = Arc::new(texts);
    let single = p.threads.len() == 1;
    let before = alloc::live();
    let bodies: Vec<rt::Body> = p
        .threads
        .into_iter()
        .enumerate()
        .map(|(t, (rng, ops))| {
            let texts = texts.clone();
            Box::new(move || body(t, single, rng, ops, texts)) as rt::Body
        })
        .collect();
    run::threads(&p.sched, bodies);
    let after = alloc::live();
    must!("C14", after == before, "leak", "all threads and everything they made are gone, but {} bytes in {} blocks are still allocated", after.0 - before.0, after.1 - before.1);
}
pub const SCENARIO: Scenario = Scenario {
    id: "C14",
    draw,
    exec,
    quick_runs: 6000,
    rule: "a run is 1-3 threads, each creating, cloning, dropping, unregistering, capturing and loading large styles under up to 12 managers that are dropped in any order, with failed creations and thread deaths, while every byte the code under test allocates is counted against what is registered or referenced; distinct by the hash of its operations, faults and schedule",
};
