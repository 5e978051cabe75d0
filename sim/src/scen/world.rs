//! A workload over style managers with a reference model beside it. Several properties use it
//! with different mixes of operations and faults; each reports only what it is about.
use super::*;
use crate::corpus;
use crate::css::{self, Model};
use crate::rt::{self, Sched};
use crate::run;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;
use stylist::ast::Sheet;
use stylist::manager::{render_static, StaticReader, StyleData, StyleManager};
use stylist::{css as css_macro, GlobalStyle, Style, StyleSource};

#[derive(Serialize, Deserialize, Clone)]
pub enum Src {
    M(Model),
    /// A sheet of the macro corpus.
    Fixed(usize),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Mgr { prefix: String, writer: bool },
    DropMgr(usize),
    Create { m: usize, g: bool, prefix: Option<String>, s: usize, how: u8 },
    /// Malformed text.
    Bad { m: usize, g: bool, i: usize },
    /// An interpolated value that breaks the sheet (only noticed in debug builds).
    Break { m: usize, g: bool, i: usize },
    Clone(usize),
    Drop(usize),
    Unreg(usize),
    /// Reads the captured data of a manager here.
    Read(usize),
    /// Hands the reader to whichever thread fetches it.
    Post(usize),
    Fetch(usize),
    Load { m: usize, d: usize },
    /// Serialised, carried over and deserialised first. false: JSON, true: bincode
    LoadWire { m: usize, d: usize, bin: bool },
    Recheck,
    /// Data in which a style this manager has got has another name, after `n` styles it has not.
    Conflict { m: usize, n: usize, k: usize },
    /// Data is loaded, a style of it used and unregistered, and the same data loaded again while a
    /// handle is kept; the other one is used, unregistered and dropped first or last.
    Again { m: usize, d: usize, k: usize, last: bool },
    /// Styles from `n` of the small sheets, one after another, over managers or within one.
    Bulk { m: usize, spread: bool, g: bool, from: usize, n: usize },
    /// The source of randomness starts over.
    Reseed(u64),
    Yield,
    Panic,
    Die,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Th {
    pub rng: u64,
    pub ops: Vec<Op>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct WPlan {
    pub sched: Sched,
    pub sheets: Vec<Src>,
    pub bad: Vec<String>,
    /// How many more sheets there are, one small declaration each.
    #[serde(default)]
    pub bulk: usize,
    /// What servers (other processes) rendered and sent.
    #[serde(default)]
    pub servers: Vec<Server>,
    pub threads: Vec<Th>,
}
/// A server process and the requests it renders, each under a manager of its own.
#[derive(Serialize, Deserialize, Clone)]
pub struct Server {
    pub env: u64,
    pub rng: u64,
    pub requests: Vec<Request>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Request {
    pub prefix: String,
    pub styles: Vec<(bool, usize)>,
    pub bin: bool,
    /// The server dies before this many styles are rendered; it is restarted and renders again.
    pub crash: Option<usize>,
    /// Delivered in pieces of this many styles.
    pub split: Option<usize>,
}
/// Relative weights of the operations.
#[derive(Clone, Copy, Default)]
pub struct Mix {
    pub threads: &'static [usize],
    pub ops: (usize, usize),
    pub mgr: u32,
    pub writer: u32, // of 100 managers
    pub drop_mgr: u32,
    pub create: u32,
    pub bad: u32,
    pub brk: u32,
    pub clone: u32,
    pub drop: u32,
    pub unreg: u32,
    pub read: u32,
    pub post: u32,
    pub load: u32,
    pub recheck: u32,
    pub conflict: u32,
    /// Percentage of runs with data from server processes.
    pub servers: u32,
    pub reseed: u32,
    /// Of 1000 runs, those with very many styles.
    pub bulk: u32,
    pub die: u32,
    pub panic: u32,
}
pub const PREFIXES: &[&str] = &["a", "a-global", "app", "a-b", "stylist", "stylist-global", "x1", "_u", "-w", "A", "größe", "style", "b-"];

pub fn draw(r: &mut Rng, mix: &Mix) -> WPlan {
    let n = r.range(1, 5);
    let mut fam: Vec<Model> = Model::family(r, n, 3);
    let mut sheets: Vec<Src> = vec![];
    for _ in 0..r.below(3) {
        let k = r.below(corpus::N);
        if !sheets.iter().any(|s| matches!(s, Src::Fixed(x) if *x == k)) {
            // A near-identical text sheet next to the macro-made one.
            if r.chance(1, 2) {
                fam.push(corpus::model(k).near(r));
            }
            sheets.push(Src::Fixed(k));
        }
    }
    let taken: HashSet<String> = sheets.iter().map(|s| match s { Src::Fixed(k) => corpus::model(*k).key(), _ => String::new() }).collect();
    let mut seen = taken;
    for m in fam {
        if seen.insert(m.key()) {
            sheets.push(Src::M(m));
        }
    }
    let bad: Vec<String> = (0..2).map(|_| { let m = Model::draw(r, 2); m.malformed(r) }).collect();
    let nt = *r.pick(mix.threads);
    // Swarm: each run leaves out some of the operations.
    let keep = |r: &mut Rng, w: u32| if w > 0 && r.chance(3, 4) { w } else { 0 };
    let m = *mix;
    let w = [
        (0, m.mgr), (1, keep(r, m.drop_mgr)), (2, m.create), (3, keep(r, m.bad)), (4, keep(r, m.brk)), (5, keep(r, m.clone)), (6, keep(r, m.drop)),
        (7, keep(r, m.unreg)), (8, keep(r, m.read)), (9, keep(r, m.post)), (10, keep(r, m.post)), (11, keep(r, m.load)), (12, keep(r, m.load)), (13, keep(r, m.recheck)),
        (14, keep(r, m.reseed)), (18, keep(r, m.conflict)), (19, keep(r, m.load / 3)), (15, 3u32), (16, keep(r, m.panic)), (17, keep(r, m.die)),
    ];
    let total: u32 = w.iter().map(|x| x.1).sum();
    let reseed = r.below(4) as u64 + 1;
    let g_share = *r.pick(&[0, 20, 50]);
    let threads: Vec<Th> = (0..nt)
        .map(|_| {
            let len = r.range(mix.ops.0, mix.ops.1);
            let mut ops = vec![];
            for i in 0..len {
                let mut x = r.below(total as usize) as u32;
                let k = w.iter().find(|(_, c)| if x < *c { true } else { x -= c; false }).unwrap().0;
                let k = if i == 0 && mix.mgr > 0 && r.chance(2, 3) { 0 } else { k };
                let big = |r: &mut Rng| r.below(64);
                let g = r.chance(g_share, 100);
                ops.push(match k {
                    0 => Op::Mgr { prefix: r.pick(PREFIXES).to_string(), writer: r.chance(mix.writer, 100) },
                    1 => Op::DropMgr(big(r)),
                    2 => Op::Create { m: big(r), g, prefix: if r.chance(1, 4) { Some(r.pick(PREFIXES).to_string()) } else { None }, s: r.below(sheets.len()), how: r.below(8) as u8 },
                    3 => Op::Bad { m: big(r), g, i: r.below(2) },
                    4 => Op::Break { m: big(r), g, i: r.below(4) },
                    5 => Op::Clone(big(r)),
                    6 => Op::Drop(big(r)),
                    7 => Op::Unreg(big(r)),
                    8 => Op::Read(big(r)),
                    9 => Op::Post(big(r)),
                    10 => Op::Fetch(big(r)),
                    11 => Op::Load { m: big(r), d: big(r) },
                    12 => Op::LoadWire { m: big(r), d: big(r), bin: r.chance(1, 2) },
                    13 => Op::Recheck,
                    14 => Op::Reseed(reseed),
                    18 => Op::Conflict { m: big(r), n: r.below(4), k: big(r) },
                    19 => Op::Again { m: big(r), d: big(r), k: big(r), last: r.chance(1, 3) },
                    16 => Op::Panic,
                    17 => Op::Die,
                    _ => Op::Yield,
                });
            }
            Th { rng: r.next(), ops }
        })
        .collect();
    let mut threads: Vec<Th> = threads;
    let mut servers = vec![];
    if r.chance(mix.servers, 100) {
        let prefixes: Vec<&str> = threads.iter().flat_map(|t| t.ops.iter()).filter_map(|o| match o { Op::Mgr { prefix, .. } => PREFIXES.iter().find(|p| *p == prefix).copied(), _ => None }).chain(["stylist"]).collect();
        for _ in 0..*r.pick(&[1, 1, 2]) {
            let rng = if r.chance(1, 4) { threads[0].rng } else { r.next() };
            let requests = (0..r.range(1, 3))
                .map(|_| {
                    let n = r.range(0, 6);
                    Request {
                        prefix: r.pick(&prefixes).to_string(),
                        styles: (0..n).map(|_| (r.chance(g_share.max(20), 100), r.below(sheets.len()))).collect(),
                        bin: r.chance(1, 2),
                        crash: if r.chance(1, 6) { Some(r.below(n + 1)) } else { None },
                        split: if r.chance(1, 4) { Some(r.range(1, 3)) } else { None },
                    }
                })
                .collect();
            servers.push(Server { env: r.next(), rng, requests });
        }
        // Usually a client loads first.
        for t in threads.iter_mut() {
            for i in 0..r.below(3) {
                t.ops.insert(i.min(t.ops.len()), Op::Load { m: r.below(64), d: r.below(64) });
            }
        }
    }
    let mut bulk = 0;
    if r.chance(mix.bulk, 1000) {
        bulk = *r.pick(&[120, 300, 1100, 2500, 2500]);
        let spread = r.chance(2, 3);
        let g = r.chance(1, 3);
        // One thread does most of it: what several do at a time costs a lot of switches.
        let main = r.below(threads.len());
        for (i, t) in threads.iter_mut().enumerate() {
            let n = if i == main { bulk } else { *r.pick(&[0, 40, 150.min(bulk)]) };
            let op = Op::Bulk { m: r.below(64), spread, g, from: r.below(2) * r.below(bulk), n };
            t.ops.insert(r.below(t.ops.len() + 1), op);
        }
    }
    WPlan { sched: Sched::draw(r), sheets, bad, bulk, servers, threads }
}

// ---- reporting ----
static mut ACTIVE: &str = "";
/// The property being checked: other properties' violations end the run unreported.
pub fn activate(id: &'static str) {
    unsafe { ACTIVE = id }
}
pub fn about(tags: &str) -> bool {
    unsafe { tags.contains(*std::ptr::addr_of!(ACTIVE)) }
}
pub fn broken(tags: &str, kind: &str, msg: String) -> ! {
    if about(tags) {
        run::violate(kind, msg)
    }
    run::trace(|| format!("(not about this property: {kind}: {})", run::clip(&msg, 200)));
    run::probe("other-property-violated");
    run::stop_early()
}
#[macro_export]
macro_rules! must {
    ($tags:expr, $c:expr, $k:expr, $($a:tt)*) => {{
        $crate::run::g().out.checks += 1;
        if !$c { $crate::scen::world::broken($tags, $k, format!($($a)*)) }
    }};
}
/// Runs code under test that must not panic.
pub fn calm<T>(tags: &str, what: &str, f: impl FnOnce() -> T) -> T {
    match run::guarded(f) {
        Ok(v) => v,
        Err(m) => broken(tags, "panic", format!("{what} panicked: {}", run::clip(&m, 500))),
    }
}

// ---- the model ----
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Serialize, Deserialize)]
pub struct Key {
    pub g: bool,
    pub prefix: String,
    pub s: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entry {
    pub id: String,
    pub text: String,
    pub loaded: bool,
    /// Which one of possibly several under the same name: one can be loaded again.
    pub inst: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cap {
    pub key: Key,
    pub id: String,
    pub text: String,
}
/// What a capturing manager has been asked so far; readers on other threads compare with it.
#[derive(Default)]
pub struct Log {
    pub done: Vec<Cap>,
    pub pending: usize,
    /// The thread died in the middle of a creation.
    pub dead: bool,
}
pub struct Mgr {
    pub mgr: Option<StyleManager>,
    pub prefix: String,
    pub writer: bool,
    pub reader: Option<StaticReader>,
    pub reg: BTreeMap<Key, Entry>,
    pub log: usize,
    pub default: bool,
    /// Keys that were unregistered at some time: later loads of those are left alone.
    pub unregistered: HashSet<Key>,
}
pub enum Sty {
    S(Style),
    G(GlobalStyle),
}
impl Sty {
    pub fn id(&self) -> String {
        match self {
            Sty::S(s) => s.id().to_string(),
            Sty::G(s) => s.id().to_string(),
        }
    }
    pub fn class(&self) -> Option<String> {
        match self {
            Sty::S(s) => Some(s.get_class_name().to_string()),
            Sty::G(_) => None,
        }
    }
    pub fn text(&self) -> String {
        match self {
            Sty::S(s) => s.get_style_str().to_string(),
            Sty::G(s) => s.get_style_str().to_string(),
        }
    }
    pub fn unregister(&self) {
        match self {
            Sty::S(s) => s.unregister(),
            Sty::G(s) => s.unregister(),
        }
    }
    pub fn dup(&self) -> Sty {
        match self {
            Sty::S(s) => Sty::S(s.clone()),
            Sty::G(s) => Sty::G(s.clone()),
        }
    }
}
pub struct H {
    pub sty: Sty,
    pub inst: u64,
    pub m: usize,
    pub key: Key,
    pub id: String,
    pub text: String,
}
/// Handles that outlive their thread's code: they go in thread-local destructors, before or after
/// the thread's default manager.
#[derive(Default)]
struct Keep(std::cell::RefCell<Vec<H>>);
impl Drop for Keep {
    fn drop(&mut self) {
        for (i, h) in self.0.get_mut().drain(..).enumerate() {
            run::probe("used-at-thread-exit");
            let (sty, id, text) = (h.sty, h.id, h.text);
            let tags = "C02 C04 C11 C14 C15";
            calm(tags, "using a style while its thread ends", || {
                for k in 0..2 {
                    must!(tags, sty.id() == id && sty.text() == text, "changed", "the style {id} of a thread that ends is now {:?}: {:?}", sty.id(), run::clip(&sty.text(), 200));
                    if k == 0 && i % 3 != 2 {
                        sty.unregister();
                    }
                }
                drop(sty);
            });
        }
    }
}
thread_local! {
    static KEEP: [Keep; 2] = Default::default();
    static KEEP_LATE: Keep = Keep::default();
}
pub struct Data {
    pub data: StyleData,
    pub caps: Vec<Cap>,
}

/// State all threads share: only the running one touches it.
#[derive(Default)]
pub struct Shared {
    /// id -> what it stands for; ids of this process, whether or not still alive.
    pub ids: HashMap<String, String>,
    pub logs: Vec<Log>,
    pub mail: Vec<(StaticReader, usize)>,
    /// Reads to be checked against the final log.
    pub reads: Vec<(usize, Vec<(String, String)>)>,
    pub reseeded: bool,
    insts: u64,
}
impl Shared {
    pub fn inst(&mut self) -> u64 {
        self.insts += 1;
        self.insts
    }
}
static mut SHARED: *mut Shared = std::ptr::null_mut();
pub fn shared() -> &'static mut Shared {
    unsafe {
        if SHARED.is_null() {
            SHARED = Box::into_raw(Box::default());
        }
        &mut *SHARED
    }
}
pub fn seed_rng(_x: u64) {
    #[cfg(feature = "random")]
    fastrand::seed(_x);
}

pub struct World {
    pub t: usize,
    pub mgrs: Vec<Mgr>,
    pub hs: Vec<H>,
    pub data: Vec<Data>,
    pub sheets: Arc<Vec<(Model, Option<usize>)>>,
    pub bad: Arc<Vec<String>>,
}
const ALL_TAGS: &str = "C02 C03 C04 C07 C09 C11 C15";

impl World {
    pub fn new(t: usize, sheets: Arc<Vec<(Model, Option<usize>)>>, bad: Arc<Vec<String>>) -> World {
        let mgr = calm(ALL_TAGS, "StyleManager::default", StyleManager::default);
        let mgr2 = StyleManager::default();
        must!("C02 C11", mgr == mgr2, "default-manager", "two requests for a thread's default manager gave different ones");
        let d = Mgr { mgr: Some(mgr), prefix: "stylist".into(), writer: false, reader: None, reg: BTreeMap::new(), log: usize::MAX, default: true, unregistered: HashSet::new() };
        World { t, mgrs: vec![d], hs: vec![], data: vec![], sheets, bad }
    }
    fn live_mgr(&self, i: usize) -> Option<usize> {
        let l: Vec<usize> = (0..self.mgrs.len()).filter(|j| self.mgrs[*j].mgr.is_some()).collect();
        if l.is_empty() { None } else { Some(l[i % l.len()]) }
    }
    pub fn expect(&self, key: &Key, id: &str) -> Vec<css::Fact> {
        self.sheets[key.s].0.expect(if key.g { None } else { Some(id) })
    }
    /// Supplies sheet `s` in one of the ways a program can and creates the style.
    pub fn make(&self, m: usize, g: bool, prefix: Option<&str>, s: usize, how: u8) -> Result<Sty, String> {
        let (model, fixed) = &self.sheets[s];
        let mgr = self.mgrs[m].mgr.clone().unwrap();
        let text = model.text_with(model.noise);
        let default = self.mgrs[m].default && how % 2 == 0;
        fn fin<C>(g: bool, prefix: Option<&str>, default: bool, mgr: StyleManager, c: C) -> Result<Sty, String>
        where
            C: TryInto<StyleSource>,
            stylist::Error: From<C::Error>,
        {
            match (g, prefix, default) {
                (true, _, true) => GlobalStyle::new(c).map(Sty::G),
                (true, _, false) => GlobalStyle::new_with_manager(c, mgr).map(Sty::G),
                (false, None, true) => Style::new(c).map(Sty::S),
                (false, Some(p), true) => Style::create(p.to_string(), c).map(Sty::S),
                (false, None, false) => Style::new_with_manager(c, &mgr).map(Sty::S),
                (false, Some(p), false) => Style::create_with_manager(p.to_string(), c, mgr).map(Sty::S),
            }
            .map_err(|e| e.to_string())
        }
        if let (Some(k), 0..=3) = (fixed, how) {
            return fin(g, prefix, default, mgr, corpus::source(*k, how % 2 == 0));
        }
        match how {
            0 | 1 => fin(g, prefix, default, mgr, text.as_str()),
            2 => fin(g, prefix, default, mgr, text),
            3 => fin(g, prefix, default, mgr, std::borrow::Cow::Borrowed(text.as_str())),
            4 | 5 => {
                let s: Sheet = text.parse().map_err(|e: stylist::Error| e.to_string())?;
                fin(g, prefix, default, mgr, s)
            }
            6 => {
                let s: Sheet = text.parse().map_err(|e: stylist::Error| e.to_string())?;
                let j = serde_json::to_string(&s).map_err(|e| e.to_string())?;
                let s: Sheet = serde_json::from_str(&j).map_err(|e| e.to_string())?;
                fin(g, prefix, default, mgr, s)
            }
            _ => {
                let s = StyleSource::try_from(text).map_err(|e| e.to_string())?;
                fin(g, prefix, default, mgr, s.clone())
            }
        }
    }
    pub fn create(&mut self, m: usize, g: bool, prefix: Option<&str>, s: usize, how: u8) -> usize {
        let p = match (g, prefix) {
            (false, Some(p)) => p.to_string(),
            _ => self.mgrs[m].prefix.clone(),
        };
        let key = Key { g, prefix: p, s };
        let log = self.mgrs[m].log;
        let had = self.mgrs[m].reg.get(&key).cloned();
        if log != usize::MAX && had.is_none() {
            shared().logs[log].pending += 1;
        }
        let r = calm(ALL_TAGS, "creating a style", || self.make(m, g, prefix, s, how));
        let sty = match r {
            Ok(s) => s,
            Err(e) => broken(ALL_TAGS, "create-failed", format!("creating a style from a well-formed sheet failed: {e}: {:?}", self.sheets[s].0.text())),
        };
        let (id, text) = (sty.id(), sty.text());
        run::see("id", &id);
        must!("C02", sty.class().map(|c| c == id).unwrap_or(true), "class-vs-id", "a style's class name {:?} is not its id {id:?}", sty.class());
        match had {
            Some(e) => {
                let tags = match (e.loaded, self.mgrs[m].writer) {
                    (true, _) => "C02 C09 C15",
                    (_, true) => "C02 C04 C07 C15",
                    _ => "C02 C04 C15",
                };
                must!(tags, e.id == id, "not-shared", "style {key:?} is registered as {} but a request for it gave {id}", e.id);
                must!(tags, e.text == text, "text-changed", "style {id} had text {:?}, now {text:?}", e.text);
            }
            None => {
                let what = format!("t{} mgr{m} {key:?}", self.t);
                // Whose name is it?
                if let Some((j, k)) = self.mgrs[m].reg.iter().find(|(_, e)| e.id == id).map(|(k, _)| (m, k.clone())) {
                    let tags = if k.g != key.g || k.prefix != key.prefix || k.s != key.s { "C02 C03 C04 C09 C15" } else { "C03" };
                    must!(tags, false, "shared-name", "different styles {k:?} and {key:?} of manager {j} share the name {id}");
                }
                if let Some(h) = self.hs.iter().find(|h| h.id == id && h.m == m) {
                    must!("C03 C04", false, "name-reused", "new style {key:?} got the name {id} that a live handle of {:?} still has", h.key);
                }
                if !shared().reseeded {
                    if let Some(o) = shared().ids.get(&id) {
                        must!("C03 C04 C09 C11 C15", false, "name-reused", "new style {what} got the name {id} of {o}");
                    }
                }
                shared().ids.insert(id.clone(), what);
                must!("C03", id.strip_prefix(&key.prefix).map(|r| r.starts_with('-') && r.len() > 1).unwrap_or(false), "name-prefix", "name {id:?} does not start with the prefix {:?}", key.prefix);
                must!("C03", id[key.prefix.len()..].chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_'), "name-chars", "name {id:?} is not a valid CSS class");
                let d = css::diff(&text, &self.expect(&key, &id));
                must!("C02 C09 C15 C11 C07", d.is_none(), "wrong-text", "style {id} of {key:?} ({:?}): {}; text {text:?}", self.sheets[s].0.text(), d.unwrap());
                self.mgrs[m].reg.insert(key.clone(), Entry { id: id.clone(), text: text.clone(), loaded: false, inst: shared().inst() });
                if log != usize::MAX {
                    let l = &mut shared().logs[log];
                    l.pending -= 1;
                    l.done.push(Cap { key: key.clone(), id: id.clone(), text: text.clone() });
                }
            }
        }
        let inst = self.mgrs[m].reg[&key].inst;
        self.hs.push(H { sty, inst, m, key, id, text });
        self.hs.len() - 1
    }
    /// Handles never change.
    pub fn check_handles(&self) {
        for h in &self.hs {
            let (id, text) = (h.sty.id(), h.sty.text());
            must!("C02 C04 C11 C15 C09", h.id == id, "handle-changed", "handle of {} now says {id}", h.id);
            must!("C02 C04 C11 C15 C09", h.text == text, "handle-changed", "handle of {} had text {:?}, now {text:?}", h.id, h.text);
        }
    }
    /// Everything registered is still there.
    pub fn recheck(&mut self) {
        let all: Vec<(usize, Key)> = self
            .mgrs
            .iter()
            .enumerate()
            .filter(|(_, m)| m.mgr.is_some())
            .flat_map(|(i, m)| m.reg.keys().map(move |k| (i, k.clone())))
            .collect();
        for (m, k) in all {
            let p = if k.g { None } else { Some(k.prefix.as_str()) };
            let h = self.create(m, k.g, p, k.s, 4);
            self.hs.swap_remove(h);
        }
        self.check_handles();
    }
    pub fn take_read(&mut self, m: usize) -> Option<Data> {
        let reader = self.mgrs[m].reader.take()?;
        let log = self.mgrs[m].log;
        let data = calm("C07 C15 C11", "reading style data", || reader.read_style_data());
        let caps = shared().logs[log].done.clone();
        self.compare(&data, &caps, "C07 C15 C11", "read by its own thread");
        Some(Data { data, caps })
    }
    /// Captured data is exactly these styles.
    pub fn compare(&self, data: &StyleData, caps: &[Cap], tags: &str, when: &str) {
        let got = calm(tags, "write_static_markup", || listed(data));
        let got = match got {
            Ok(g) => g,
            Err(e) => broken("C07 C08 C15 C11", "bad-markup", format!("markup of captured data: {e}")),
        };
        let ids: Vec<&String> = got.iter().map(|x| &x.0).collect();
        let want: Vec<&String> = caps.iter().map(|c| &c.id).collect();
        must!(tags, ids == want, "capture", "captured styles {when}: {ids:?}, but created were {want:?}");
        for ((id, text), c) in got.iter().zip(caps) {
            let d = css::diff_escaped(text, &self.expect(&c.key, id));
            must!(tags, d.is_none(), "captured-text", "captured text of {id}: {}", d.unwrap());
        }
        // The keys travel with it.
        let j = serde_json::to_value(data).unwrap_or_default();
        let keys: Vec<(bool, String, String)> = j
            .as_array()
            .map(|a| a.iter().map(|x| (x["key"]["is_global"].as_bool().unwrap_or(false), x["key"]["prefix"].as_str().unwrap_or("").to_string(), x["id"].as_str().unwrap_or("").to_string())).collect())
            .unwrap_or_default();
        let want: Vec<(bool, String, String)> = caps.iter().map(|c| (c.key.g, c.key.prefix.clone(), c.id.clone())).collect();
        if j.is_array() && j[0]["key"]["is_global"].is_boolean() {
            must!(tags, keys == want, "captured-keys", "captured data {when} describes {keys:?}, created were {want:?}");
        }
    }
    /// Model of a load: None: accepted, Some: refused.
    fn conflict(&self, m: usize, caps: &[Cap]) -> bool {
        let mut ids: HashMap<&Key, &String> = HashMap::new();
        for c in caps {
            let have = self.mgrs[m].reg.get(&c.key).map(|e| &e.id).or(ids.get(&c.key).copied());
            if let Some(h) = have {
                if *h != c.id {
                    return true;
                }
            }
            ids.insert(&c.key, &c.id);
        }
        false
    }
    pub fn load(&mut self, m: usize, data: &StyleData, caps: &[Cap]) {
        if self.mgrs[m].writer && !caps.is_empty() {
            return;
        }
        if caps.iter().any(|c| self.mgrs[m].unregistered.contains(&c.key)) {
            run::probe("unregistered-loaded-again");
        }
        // A name that another style of this manager has (names repeat between processes when they
        // are counted).
        let mut names: HashMap<&str, &Key> = self.mgrs[m].reg.iter().map(|(k, e)| (e.id.as_str(), k)).collect();
        names.extend(self.hs.iter().filter(|h| h.m == m).map(|h| (h.id.as_str(), &h.key)));
        let mut taken = false;
        for c in caps {
            taken |= names.insert(&c.id, &c.key).map(|k| *k != c.key).unwrap_or(false);
        }
        if taken {
            run::fault("load.name-taken");
        }
        let refuse = self.conflict(m, caps) || taken;
        let mgr = self.mgrs[m].mgr.clone().unwrap();
        let r = run::guarded(|| mgr.load_style_data(data));
        run::see("load", if r.is_ok() { "ok" } else { "refused" });
        if refuse {
            run::fault("load.conflict");
            must!(if taken { "C03 C09 C15" } else { "C09 C15" }, r.is_err(), "conflict-accepted", "a load that renames a registered style or gives its name to another was accepted");
            // "without altering": checked by what follows.
        } else {
            must!("C09", r.is_ok(), "load-refused", "loading data without conflicts was refused: {}", r.unwrap_err());
            for c in caps {
                let text = c.text.clone();
                self.mgrs[m].reg.entry(c.key.clone()).or_insert(Entry { id: c.id.clone(), text, loaded: true, inst: shared().inst() });
            }
        }
    }
    pub fn step(&mut self, op: &Op) {
        run::op(&format!("{op:?}"));
        match op {
            Op::Mgr { prefix, writer } => {
                if self.mgrs.iter().filter(|m| m.mgr.is_some()).count() >= 5 {
                    return;
                }
                let mut b = StyleManager::builder().prefix(prefix.clone().into());
                let (mut reader, mut log) = (None, usize::MAX);
                if *writer {
                    let (w, r) = render_static();
                    b = b.writer(w);
                    reader = Some(r);
                    log = shared().logs.len();
                    shared().logs.push(Log::default());
                }
                let mgr = match calm(ALL_TAGS, "building a manager", || b.build()) {
                    Ok(m) => m,
                    Err(e) => broken(ALL_TAGS, "build", format!("building a manager failed: {e}")),
                };
                self.mgrs.push(Mgr { mgr: Some(mgr), prefix: prefix.clone(), writer: *writer, reader, reg: BTreeMap::new(), log, default: false, unregistered: HashSet::new() });
            }
            Op::DropMgr(i) => {
                let l: Vec<usize> = (1..self.mgrs.len()).filter(|j| self.mgrs[*j].mgr.is_some()).collect();
                if let Some(i) = l.get(i % l.len().max(1)) {
                    let m = self.mgrs[*i].mgr.take();
                    calm("C04 C15 C11 C07", "dropping a manager", || drop(m));
                    self.mgrs[*i].reg.clear();
                }
            }
            Op::Create { m, g, prefix, s, how } => {
                if let Some(m) = self.live_mgr(*m) {
                    let prefix = if *g { None } else { prefix.as_deref() };
                    self.create(m, *g, prefix, s % self.sheets.len().max(1), *how);
                }
            }
            Op::Bad { m, g, i } => {
                if let Some(m) = self.live_mgr(*m) {
                    if self.bad.is_empty() {
                        return;
                    }
                    run::fault("create.malformed");
                    let t = self.bad[i % self.bad.len()].clone();
                    let mgr = self.mgrs[m].mgr.clone().unwrap();
                    let r = run::guarded(|| if *g { GlobalStyle::new_with_manager(t.as_str(), mgr).is_ok() } else { Style::new_with_manager(t.as_str(), mgr).is_ok() });
                    must!("C15", r.is_ok(), "malformed-panic", "malformed text panicked instead of being an error: {:?}: {}", t, run::clip(r.as_ref().err().unwrap(), 300));
                    must!("C15", r == Ok(false), "malformed-accepted", "malformed text was accepted: {t:?}");
                }
            }
            Op::Break { m, g, i } => {
                if cfg!(not(feature = "random")) {
                    return;
                }
                if let Some(m) = self.live_mgr(*m) {
                    run::fault("create.broken-interpolation");
                    let mgr = self.mgrs[m].mgr.clone().unwrap();
                    let v = ["red; } .x {", "}", "\"", "red }"][i % 4];
                    let src = css_macro!("color: ${v};", v = v);
                    let r = run::guarded(|| if *g { GlobalStyle::new_with_manager(src, mgr).is_ok() } else { Style::new_with_manager(src, mgr).is_ok() });
                    must!("C15", r != Ok(true), "broken-accepted", "a style whose interpolated value breaks the sheet was accepted");
                }
            }
            Op::Clone(i) => {
                if !self.hs.is_empty() && self.hs.len() < 60 {
                    let h = &self.hs[i % self.hs.len()];
                    let h = H { sty: h.sty.dup(), inst: h.inst, m: h.m, key: h.key.clone(), id: h.id.clone(), text: h.text.clone() };
                    self.hs.push(h);
                }
            }
            Op::Drop(i) => {
                if !self.hs.is_empty() {
                    let i = i % self.hs.len();
                    let h = self.hs.swap_remove(i);
                    calm("C04 C15", "dropping a handle", || drop(h));
                }
            }
            Op::Unreg(i) => {
                if !self.hs.is_empty() {
                    self.unregister(i % self.hs.len());
                }
            }
            Op::Read(i) => {
                let l: Vec<usize> = (0..self.mgrs.len()).filter(|j| self.mgrs[*j].reader.is_some()).collect();
                if !l.is_empty() {
                    let m = l[i % l.len()];
                    if let Some(d) = self.take_read(m) {
                        self.data.push(d);
                    }
                }
            }
            Op::Post(i) => {
                let l: Vec<usize> = (0..self.mgrs.len()).filter(|j| self.mgrs[*j].reader.is_some()).collect();
                if !l.is_empty() {
                    let m = l[i % l.len()];
                    let r = self.mgrs[m].reader.take().unwrap();
                    shared().mail.push((r, self.mgrs[m].log));
                    rt::yield_now();
                }
            }
            Op::Fetch(i) => {
                if !shared().mail.is_empty() {
                    let i = i % shared().mail.len();
                    let (r, log) = shared().mail.swap_remove(i);
                    self.fetch(r, log);
                }
            }
            Op::Load { m, d } => self.load_op(*m, *d, None),
            Op::Again { m, d, k, last } => {
                let Some(m1) = self.live_mgr(*m) else { return };
                if self.data.is_empty() || self.mgrs[m1].writer {
                    return;
                }
                let caps = self.data[d % self.data.len()].caps.clone();
                let usable: Vec<&Cap> = caps.iter().filter(|c| !c.key.g || c.key.prefix == self.mgrs[m1].prefix).collect();
                let Some(c) = usable.get(k % usable.len().max(1)) else { return };
                let mut hs = vec![];
                for _ in 0..2 {
                    self.load_op(*m, *d, None);
                    // (The load may have been refused.)
                    if self.mgrs[m1].reg.get(&c.key).is_none_or(|e| e.id != c.id) {
                        break;
                    }
                    let h = self.create(m1, c.key.g, (!c.key.g).then_some(c.key.prefix.as_str()), c.key.s, 0);
                    self.unregister(h);
                    hs.push(self.hs.swap_remove(h));
                }
                if hs.len() == 2 {
                    run::probe("loaded-again-while-referenced");
                }
                // Only one of them stays.
                if !hs.is_empty() {
                    let gone = if *last { hs.remove(0) } else { hs.pop().unwrap() };
                    calm("C04 C15 C11", "dropping a style", || drop(gone.sty));
                }
                self.hs.append(&mut hs);
                for s in 0..2.min(self.sheets.len()) {
                    self.create(m1, c.key.g, (!c.key.g).then_some(c.key.prefix.as_str()), s, 0);
                }
            }
            Op::LoadWire { m, d, bin } => self.load_op(*m, *d, Some(*bin)),
            Op::Recheck => self.recheck(),
            Op::Conflict { m, n, k } => {
                let l: Vec<usize> = (0..self.mgrs.len()).filter(|j| self.mgrs[*j].mgr.is_some() && !self.mgrs[*j].writer && !self.mgrs[*j].reg.is_empty()).collect();
                if l.is_empty() {
                    return;
                }
                let m = l[m % l.len()];
                let key = self.mgrs[m].reg.keys().nth(k % self.mgrs[m].reg.len()).unwrap().clone();
                // Made by an honest manager that does not know of this one.
                let prefix = self.mgrs[m].prefix.clone();
                let t = self.mgrs.len();
                let before = self.hs.len();
                self.step(&Op::Mgr { prefix: prefix.clone(), writer: true });
                if self.mgrs.len() == t {
                    return;
                }
                for i in 0..*n {
                    let s = (k + i) % self.sheets.len();
                    if !self.mgrs[m].reg.contains_key(&Key { g: i % 2 == 1, prefix: prefix.clone(), s }) {
                        self.create(t, i % 2 == 1, None, s, 4);
                    }
                }
                self.create(t, key.g, if key.g { None } else { Some(key.prefix.as_str()) }, key.s, 4);
                let d = self.take_read(t).unwrap();
                self.mgrs.truncate(t);
                self.hs.truncate(before);
                self.load(m, &d.data, &d.caps);
                // None of it may have come in.
                for c in &d.caps {
                    if !self.mgrs[m].reg.contains_key(&c.key) && k % 2 == 0 {
                        self.create(m, c.key.g, if c.key.g { None } else { Some(c.key.prefix.as_str()) }, c.key.s, 0);
                    }
                }
            }
            Op::Bulk { m, spread, g, from, n } => {
                let small = self.sheets.iter().position(|(m, _)| m.items == [css::Item::Decl("--t".into(), "0".into())]);
                let (Some(a), Some(m0)) = (small, self.live_mgr(*m)) else { return };
                run::probe("very-many-styles");
                let bulk = self.sheets.len() - a;
                for i in 0..*n {
                    let m = if *spread { self.live_mgr(m + i).unwrap() } else { m0 };
                    // One name space for all managers, so that names can meet.
                    let h = self.create(m, *g, spread.then_some("a"), a + (from + i) % bulk, 0);
                    // Some of the handles stay.
                    if i % 16 != 0 {
                        self.hs.swap_remove(h);
                    }
                }
            }
            Op::Reseed(x) => {
                run::fault("entropy.repeats");
                shared().reseeded = true;
                seed_rng(*x);
            }
            Op::Yield => rt::yield_now(),
            Op::Panic => {
                run::fault("thread.panic-caught");
                let _ = run::guarded(|| panic!("injected"));
            }
            Op::Die => {
                run::fault("thread.death");
                panic!("injected death");
            }
        }
        self.check_handles();
    }
    fn unregister(&mut self, i: usize) {
        let (m, key, id, inst) = (self.hs[i].m, self.hs[i].key.clone(), self.hs[i].id.clone(), self.hs[i].inst);
        calm("C04 C15 C07", "unregister", || self.hs[i].sty.unregister());
        if self.mgrs[m].mgr.is_none() {
            run::probe("unregister-after-manager");
        }
        if !self.mgrs[m].writer {
            // Only the style itself goes, not a newer one made from the same sheet.
            match self.mgrs[m].reg.get(&key) {
                Some(e) if e.inst == inst => {
                    self.mgrs[m].reg.remove(&key);
                    self.mgrs[m].unregistered.insert(key);
                }
                // The same style under the same name, loaded again: it may count as
                // the same one or as another.
                Some(e) if e.id == id => {
                    run::probe("unregister-of-another-instance");
                    self.resolve(m, key);
                }
                _ => run::probe("stale-unregister"),
            }
        }
    }
    /// Finds out whether a style is registered.
    fn resolve(&mut self, m: usize, key: Key) {
        let e = self.mgrs[m].reg.remove(&key).unwrap();
        let s = match calm(ALL_TAGS, "creating a style", || self.make(m, key.g, (!key.g).then_some(key.prefix.as_str()), key.s, 0)) {
            Ok(s) => s,
            Err(e) => broken(ALL_TAGS, "create-failed", format!("creating a style from a well-formed sheet failed: {e}")),
        };
        let e = if s.id() == e.id {
            e
        } else {
            self.mgrs[m].unregistered.insert(key.clone());
            Entry { id: s.id(), text: s.text(), loaded: false, inst: shared().inst() }
        };
        shared().ids.insert(e.id.clone(), format!("t{} mgr{m} {key:?}", self.t));
        self.mgrs[m].reg.insert(key, e);
    }
    fn load_op(&mut self, m: usize, d: usize, wire: Option<bool>) {
        let Some(m) = self.live_mgr(m) else { return };
        if self.data.is_empty() {
            return;
        }
        let d = d % self.data.len();
        let caps = self.data[d].caps.clone();
        let data = self.data[d].data.clone();
        let data = match wire {
            None => data,
            Some(bin) => carry("C09", &data, bin),
        };
        self.load(m, &data, &caps);
    }
    pub fn fetch(&mut self, r: StaticReader, log: usize) {
        run::probe("cross-thread-read");
        let before = shared().logs[log].done.len();
        let data = calm("C07 C15 C11", "reading style data", || r.read_style_data());
        let l = &shared().logs[log];
        let (after, pend, dead) = (l.done.len(), l.pending, l.dead);
        if pend > 0 {
            run::probe("read-during-creation");
        }
        let got = match calm("C07 C15 C11", "write_static_markup", || listed(&data)) {
            Ok(g) => g,
            Err(e) => broken("C07 C08 C15 C11", "bad-markup", format!("markup of captured data: {e}")),
        };
        let ok = got.len() >= before && got.len() <= after + pend + dead as usize;
        must!("C07 C15 C11", ok, "capture", "a reader on another thread got {} styles, but {before} were created before it started and {} at most when it ended", got.len(), after + pend);
        shared().reads.push((log, got));
        let caps: Vec<Cap> = shared().logs[log].done.clone();
        if caps.len() == shared().reads.last().unwrap().1.len() {
            self.data.push(Data { data, caps });
        }
    }
    pub fn end(&mut self) {
        self.recheck();
        for m in 0..self.mgrs.len() {
            self.take_read(m);
        }
    }
}
/// Serialises and deserialises.
pub fn carry(tags: &str, d: &StyleData, bin: bool) -> StyleData {
    let r = calm(tags, "carrying style data", || {
        if bin {
            let b = bincode::serialize(d).map_err(|e| e.to_string())?;
            bincode::deserialize::<StyleData>(&b).map_err(|e| e.to_string())
        } else {
            let b = serde_json::to_string(d).map_err(|e| e.to_string())?;
            serde_json::from_str::<StyleData>(&b).map_err(|e| e.to_string())
        }
    });
    match r {
        Ok(d) => d,
        Err(e) => broken(tags, "wire", format!("intact style data did not survive the transport: {e}")),
    }
}
/// (id, raw CSS) of each captured style, from its markup.
pub fn listed(d: &StyleData) -> Result<Vec<(String, String)>, String> {
    let mut s = String::new();
    d.write_static_markup(&mut s).map_err(|e| e.to_string())?;
    crate::markup::styles(&s)
}

pub fn prepare(p: &WPlan) -> (Arc<Vec<(Model, Option<usize>)>>, Arc<Vec<String>>) {
    let mut seen = HashSet::new();
    let sheets: Vec<(Model, Option<usize>)> = p
        .sheets
        .iter()
        .map(|s| match s {
            Src::M(m) => (m.clone(), None),
            Src::Fixed(k) => (corpus::model(*k), Some(*k)),
        })
        .chain((0..p.bulk).map(|i| (Model { items: vec![css::Item::Decl("--t".into(), i.to_string())], noise: 0 }, None)))
        .filter(|(m, _)| seen.insert(m.key()))
        .collect();
    (Arc::new(sheets), Arc::new(p.bad.clone()))
}
pub fn exec(id: &'static str, p: WPlan) {
    activate(id);
    let (sheets, bad) = prepare(&p);
    if sheets.is_empty() {
        return;
    }
    let sent: Arc<Vec<Sent>> = Arc::new(p.servers.iter().enumerate().flat_map(|(i, s)| serve(i, s, &sheets)).collect());
    let bodies: Vec<rt::Body> = p
        .threads
        .iter()
        .cloned()
        .enumerate()
        .map(|(t, th)| {
            let (sheets, bad, sent) = (sheets.clone(), bad.clone(), sent.clone());
            Box::new(move || {
                seed_rng(th.rng);
                KEEP.with(|_| ());
                let mut w = World::new(t, sheets, bad);
                w.data = receive(&sent);
                for op in &th.ops {
                    w.step(op);
                }
                w.end();
                for k in 0..(th.rng % 4) as usize {
                    if !w.hs.is_empty() {
                        let h = w.hs.swap_remove(th.rng as usize / 4 % w.hs.len());
                        match k {
                            2 => KEEP_LATE.with(|x| x.0.borrow_mut().push(h)),
                            _ => KEEP.with(|x| x[k].0.borrow_mut().push(h)),
                        }
                    }
                }
            }) as rt::Body
        })
        .collect();
    run::threads(&p.sched, bodies);
    finish(&sheets, &bad);
}
/// What a server sent: a piece of the styles of one request.
#[derive(Serialize, Deserialize, Clone)]
pub struct Sent {
    pub bin: bool,
    pub bytes: Vec<u8>,
    pub caps: Vec<Cap>,
}
pub fn receive(sent: &[Sent]) -> Vec<Data> {
    sent.iter()
        .map(|s| {
            let data = calm("C09 C10", "decoding intact style data", || decode(&s.bytes, s.bin));
            match data {
                Ok(data) => Data { data, caps: s.caps.clone() },
                Err(e) => broken("C09 C10", "wire", format!("intact style data did not survive the transport: {e}")),
            }
        })
        .collect()
}
pub fn decode(b: &[u8], bin: bool) -> Result<StyleData, String> {
    if bin {
        bincode::deserialize(b).map_err(|e| e.to_string())
    } else {
        std::str::from_utf8(b).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(s).map_err(|e| e.to_string()))
    }
}
/// Runs a server process over its requests; a crash loses everything not sent yet.
pub fn serve(i: usize, sv: &Server, sheets: &Arc<Vec<(Model, Option<usize>)>>) -> Vec<Sent> {
    let mut out = vec![];
    let mut next = 0;
    let mut crashed: HashSet<usize> = HashSet::new();
    while next < sv.requests.len() {
        let life = crashed.len();
        let (from, done) = (next, crashed.clone());
        let dies = sv.requests.iter().enumerate().skip(from).find(|(j, r)| r.crash.is_some() && !done.contains(j)).map(|x| x.0);
        let upto = dies.unwrap_or(sv.requests.len());
        // Requests before the crash are answered by a process that then dies; run it up to there.
        let end = run::node(&format!("server{i}.{life}"), sv.env ^ life as u64, || {
            seed_rng(sv.rng ^ life as u64);
            let mut w = World::new(90 + i, sheets.clone(), Arc::default());
            let mut sent = vec![];
            for j in from..sv.requests.len() {
                let rq = &sv.requests[j];
                let m = w.mgrs.len();
                w.step(&Op::Mgr { prefix: rq.prefix.clone(), writer: true });
                for (n, (g, s)) in rq.styles.iter().enumerate() {
                    if Some(j) == dies && rq.crash == Some(n) {
                        break;
                    }
                    w.create(m, *g, None, s % sheets.len(), (n % 8) as u8);
                }
                if Some(j) == dies {
                    break;
                }
                let d = w.take_read(m).unwrap();
                w.mgrs.truncate(m);
                w.hs.clear();
                let pieces = match rq.split {
                    None => vec![(d.data, d.caps)],
                    Some(k) => split(&d, k.max(1)),
                };
                for (data, caps) in pieces {
                    let bytes = if rq.bin { bincode::serialize(&data).unwrap_or_default() } else { serde_json::to_vec(&data).unwrap_or_default() };
                    sent.push(Sent { bin: rq.bin, bytes, caps });
                }
            }
            serde_json::to_value(sent).unwrap()
        });
        if let run::NodeEnd::Value(v) = end {
            out.extend(serde_json::from_value::<Vec<Sent>>(v).unwrap_or_default());
        }
        next = upto;
        if let Some(j) = dies {
            run::fault("server.crash-restart");
            crashed.insert(j);
        }
    }
    out
}
/// The same styles, in several deliveries.
fn split(d: &Data, k: usize) -> Vec<(StyleData, Vec<Cap>)> {
    let v: Vec<serde_json::Value> = match serde_json::to_value(&d.data).ok().and_then(|v| v.as_array().cloned()) {
        Some(v) if v.len() == d.caps.len() && v.len() > k => v,
        _ => return vec![(d.data.clone(), d.caps.clone())],
    };
    run::fault("transport.split");
    let mut out = vec![];
    for (i, c) in v.chunks(k).enumerate() {
        match serde_json::from_value::<StyleData>(serde_json::Value::Array(c.to_vec())) {
            Ok(x) => out.push((x, d.caps[i * k..i * k + c.len()].to_vec())),
            Err(e) => broken("C09", "wire", format!("a part of style data is not style data: {e}")),
        }
    }
    out
}
/// What other threads read is a prefix of what was captured in the end.
pub fn finish(sheets: &Arc<Vec<(Model, Option<usize>)>>, bad: &Arc<Vec<String>>) {
    let mut w = World::new(99, sheets.clone(), bad.clone());
    while let Some((r, log)) = shared().mail.pop() {
        w.fetch(r, log);
    }
    for (log, got) in &shared().reads {
        let l = &shared().logs[*log];
        let want: Vec<&String> = l.done.iter().map(|c| &c.id).take(got.len()).collect();
        let ids: Vec<&String> = got.iter().map(|x| &x.0).take(l.done.len()).collect();
        must!("C07 C15 C11", ids == want, "capture-order", "a reader got {ids:?}, not a prefix of what was created: {want:?}");
        for ((id, text), c) in got.iter().zip(&l.done) {
            let d = css::diff_escaped(text, &w.expect(&c.key, id));
            must!("C07 C15 C11", d.is_none(), "captured-text", "captured text of {id}: {}", d.unwrap());
        }
    }
    // Survivors' world: this thread, which saw all of it, still works as if nothing had happened.
    for s in 0..sheets.len().min(12) {
        for how in [0u8, 4] {
            let n = w.mgrs.len();
            w.step(&Op::Mgr { prefix: "after".into(), writer: true });
            w.create(n, s % 2 == 1, None, s, how);
            w.create(0, s % 3 == 1, None, s, how);
        }
        w.mgrs.truncate(1);
        w.hs.clear();
    }
    w.end();
}
