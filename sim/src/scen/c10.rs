//! C10: damaged style data is an error, never a crash or a wrong load.
use super::world::{self, activate, calm, seed_rng, Op, Request, Sent, Server, Src, World};
use super::*;
use crate::css::Model;
use crate::rt::{self, Sched};
use crate::{alloc, must, run};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::HashMap;
use std::sync::Arc;
use stylist::manager::{StyleData, StyleManager};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Hurt {
    Truncate(usize),
    /// Keeps the end only.
    Behead(usize),
    Flip { at: usize, bit: u8 },
    Set { at: usize, to: u8 },
    Zero { at: usize, len: usize },
    /// A little-endian length replaced.
    Len { at: usize, to: u64 },
    Repeat { at: usize, len: usize, n: usize },
    Cut { at: usize, len: usize },
    Swap { a: usize, b: usize, len: usize },
    Insert { at: usize, bytes: Vec<u8> },
    /// The tail of another message.
    Splice { at: usize, other: usize, from: usize },
    Append(usize),
    /// Damage that keeps the syntax of JSON: some value, field or element is changed.
    Json { path: usize, to: u8 },
    /// Rules in rules in rules, as a sender that is not a server might write.
    Nest(usize),
    /// Sent as JSON but read as the other format.
    Misread,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    msg: usize,
    hurt: Vec<Hurt>,
    route: u8,
    /// Keep the manager it is loaded into.
    keep: bool,
    /// The sender tries again and again.
    #[serde(default)]
    again: usize,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    sched: Sched,
    sheets: Vec<Src>,
    servers: Vec<Server>,
    threads: Vec<(u64, Vec<Step>)>,
}
fn hurt(r: &mut Rng) -> Hurt {
    let at = r.next() as usize >> 20;
    match r.below(16) {
        0 | 1 => Hurt::Truncate(at),
        2 => Hurt::Behead(at),
        3 | 4 => Hurt::Flip { at, bit: r.below(8) as u8 },
        5 => Hurt::Set { at, to: *r.pick(&[0, 1, 0x7f, 0x80, 0xff, b'"', b'{', b'}', b'[', b']', b'\\', b'<']) },
        6 => Hurt::Zero { at, len: r.range(1, 40) },
        7 => Hurt::Len { at, to: *r.pick(&[0, 1, 2, 255, 1 << 16, 1 << 31, 1 << 32, 1 << 40, (1 << 63) - 1, 1 << 63, u64::MAX]) },
        8 => Hurt::Repeat { at, len: r.range(1, 60), n: if r.chance(1, 6) { *r.pick(&[300, 2000, 5000]) } else { r.range(1, 50) } },
        9 => Hurt::Cut { at, len: r.range(1, 60) },
        10 => Hurt::Swap { a: at, b: r.next() as usize >> 20, len: r.range(1, 50) },
        11 => Hurt::Insert { at, bytes: (0..r.range(1, 20)).map(|_| r.next() as u8).collect() },
        12 => Hurt::Splice { at, other: r.below(64), from: r.next() as usize >> 20 },
        13 => Hurt::Append(r.below(64)),
        14 => if r.chance(1, 4) { Hurt::Misread } else if r.chance(1, 6) { Hurt::Nest(*r.pick(&[3, 40, 66, 100, 300, 3000, 20000])) } else { Hurt::Json { path: at, to: r.below(12) as u8 } },
        _ => Hurt::Json { path: at, to: r.below(12) as u8 },
    }
}
fn draw(r: &mut Rng, thorough: bool) -> Value {
    let n = r.range(1, 4);
    let sheets: Vec<Src> = Model::family(r, n, 3).into_iter().map(Src::M).chain((0..r.below(3)).map(Src::Fixed)).collect();
    let servers = (0..r.range(1, 2))
        .map(|_| Server {
            env: r.next(),
            rng: r.next(),
            requests: (0..r.range(1, 3))
                .map(|_| Request { prefix: r.pick(world::PREFIXES).to_string(), styles: (0..r.range(0, 5)).map(|_| (r.chance(1, 3), r.below(sheets.len()))).collect(), bin: r.chance(1, 2), crash: None, split: None })
                .collect(),
        })
        .collect();
    let threads = (0..*r.pick(&[1, 1, 2, 3]))
        .map(|_| {
            let k = r.range(3, if thorough { 40 } else { 18 });
            (r.next(), (0..k).map(|_| Step { msg: r.below(64), hurt: (0..*r.pick(&[1, 1, 1, 2, 3, 0])).map(|_| hurt(r)).collect(), route: r.below(8) as u8, keep: r.chance(1, 5), again: if r.chance(1, 14) { *r.pick(&[3, 20, 80, 150]) } else { 0 } }).collect())
        })
        .collect();
    serde_json::to_value(Plan { sched: Sched::draw(r), sheets, servers, threads }).unwrap()
}
fn name(h: &Hurt) -> &'static str {
    match h {
        Hurt::Truncate(_) => "transport.truncate",
        Hurt::Behead(_) => "transport.lost-beginning",
        Hurt::Flip { .. } => "transport.bit-flip",
        Hurt::Set { .. } => "transport.byte-set",
        Hurt::Zero { .. } => "transport.zeroed",
        Hurt::Len { .. } => "transport.length-changed",
        Hurt::Repeat { .. } => "transport.repeated-part",
        Hurt::Cut { .. } => "transport.lost-part",
        Hurt::Swap { .. } => "transport.reordered-parts",
        Hurt::Insert { .. } => "transport.foreign-bytes",
        Hurt::Splice { .. } => "transport.spliced",
        Hurt::Append(_) => "transport.duplicated",
        Hurt::Json { .. } => "transport.field-changed",
        Hurt::Nest(_) => "transport.forged-nesting",
        Hurt::Misread => "transport.wrong-format",
    }
}
fn spots(v: &mut Value, n: &mut usize, f: &mut dyn FnMut(&mut Value) -> bool) -> bool {
    if *n == 0 {
        return f(v);
    }
    *n -= 1;
    match v {
        Value::Array(a) => a.iter_mut().any(|x| spots(x, n, f)),
        Value::Object(o) => o.values_mut().any(|x| spots(x, n, f)),
        _ => false,
    }
}
fn count(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count).sum(),
        Value::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}
fn change(v: &mut Value, path: usize, to: u8) {
    let mut n = path % count(v).max(1);
    spots(v, &mut n, &mut |x| {
        *x = match to {
            0 => Value::Null,
            1 => json!(7),
            2 => json!(-1.5),
            3 => json!("\"</style>\u{0}"),
            4 => json!([]),
            5 => json!({}),
            6 => json!([x.clone(), x.clone()]),
            7 => json!({"a": x.clone()}),
            8 => match x {
                Value::Array(a) => { a.pop(); Value::Array(a.clone()) }
                Value::Object(o) => { let k = o.keys().next().cloned(); if let Some(k) = k { o.remove(&k); } Value::Object(o.clone()) }
                _ => json!(true),
            },
            9 => match x {
                Value::Array(a) => { a.reverse(); Value::Array(a.clone()) }
                Value::Object(o) => { let mut o = o.clone(); o.insert("extra".into(), json!([1])); Value::Object(o) }
                _ => json!(""),
            },
            10 => match x {
                Value::Array(a) => { let c = a.clone(); a.extend(c); Value::Array(a.clone()) }
                Value::Object(o) => { let mut m = serde_json::Map::new(); for (k, v) in o.iter().rev() { m.insert(k.clone(), v.clone()); } Value::Object(m) }
                _ => json!("x"),
            },
            _ => Value::String("é\u{1F600} \\".into()),
        };
        true
    });
}
fn nested(depth: usize) -> Vec<u8> {
    let (w, r) = stylist::manager::render_static();
    let mgr = StyleManager::builder().writer(w).build().unwrap();
    let text = format!(".a {{ {} color: red; {} }}", "@media print { ".repeat(depth), "}".repeat(depth));
    stylist::Style::new_with_manager(text, mgr).unwrap();
    bincode::serialize(&r.read_style_data()).unwrap()
}
fn damage(b: &mut Vec<u8>, bin: &mut bool, h: &Hurt, all: &[Sent]) {
    let n = b.len();
    let at = |x: usize| if n == 0 { 0 } else { x % n };
    match h {
        Hurt::Truncate(x) => b.truncate(at(*x)),
        Hurt::Behead(x) => { b.drain(..at(*x)); }
        Hurt::Flip { at: x, bit } => if n > 0 { b[at(*x)] ^= 1 << (bit & 7) },
        Hurt::Set { at: x, to } => if n > 0 { b[at(*x)] = *to },
        Hurt::Zero { at: x, len } => for i in at(*x)..(at(*x) + len).min(n) { b[i] = 0 },
        Hurt::Len { at: x, to } => {
            // Where a length seems to be, if there is one nearby.
            let s = at(*x);
            let p = (s..n.saturating_sub(7)).find(|i| b[*i] < 64 && b[i + 1..i + 8].iter().all(|c| *c == 0)).unwrap_or(s);
            for (i, c) in to.to_le_bytes().iter().enumerate() {
                if p + i < n { b[p + i] = *c }
            }
        }
        Hurt::Repeat { at: x, len, n: k } => {
            let s = at(*x);
            let part: Vec<u8> = b[s..(s + len).min(n)].repeat((*k).min(5000));
            b.splice(s..s, part);
        }
        Hurt::Cut { at: x, len } => { let s = at(*x); b.drain(s..(s + len).min(n)); }
        Hurt::Swap { a, b: c, len } => {
            let (a, c) = (at(*a).min(at(*c)), at(*a).max(at(*c)));
            let len = (*len).min(c - a).min(n - c);
            for i in 0..len { b.swap(a + i, c + i) }
        }
        Hurt::Insert { at: x, bytes } => { let s = at(*x); b.splice(s..s, bytes.iter().copied()); }
        Hurt::Splice { at: x, other, from } => {
            let o = &all[other % all.len()].bytes;
            b.truncate(at(*x));
            if !o.is_empty() { b.extend_from_slice(&o[from % o.len()..]) }
        }
        Hurt::Append(o) => b.extend_from_slice(&all[o % all.len()].bytes),
        Hurt::Json { path, to } => {
            if *bin {
                // Transcoded on the way.
                if let Ok(d) = bincode::deserialize::<StyleData>(b) {
                    *b = serde_json::to_vec(&d).unwrap_or_default();
                    *bin = false;
                }
            }
            if let Ok(mut v) = serde_json::from_slice::<Value>(b) {
                change(&mut v, *path, *to);
                *b = serde_json::to_vec(&v).unwrap();
            }
        }
        Hurt::Nest(k) => {
            let (two, three) = (nested(2), nested(3));
            let p = (0..two.len()).find(|i| two[*i] != three[*i]).unwrap_or(two.len());
            *b = three[..p].to_vec();
            let unit = &three[p..p + three.len() - two.len()];
            b.extend(unit.repeat((*k).min(20000)));
            b.extend_from_slice(&two[p..]);
            *bin = true;
        }
        Hurt::Misread => *bin = !*bin,
    }
}
/// The ways a program can decode what it received.
fn decode(b: &[u8], bin: bool, route: u8) -> Result<StyleData, String> {
    use bincode::Options;
    if bin {
        match route % 3 {
            0 => bincode::deserialize(b).map_err(|e| e.to_string()),
            1 => bincode::options().with_fixint_encoding().allow_trailing_bytes().with_limit(b.len() as u64).deserialize_from(b).map_err(|e| e.to_string()),
            _ => bincode::options().with_fixint_encoding().reject_trailing_bytes().deserialize(b).map_err(|e| e.to_string()),
        }
    } else {
        match route % 5 {
            0 => serde_json::from_slice(b).map_err(|e| e.to_string()),
            1 => serde_json::from_reader(b).map_err(|e| e.to_string()),
            2 => std::str::from_utf8(b).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(s).map_err(|e| e.to_string())),
            3 => serde_json::from_slice::<Value>(b).map_err(|e| e.to_string()).and_then(|v| serde_json::from_value(v).map_err(|e| e.to_string())),
            // One after another, as on a stream.
            _ => serde_json::Deserializer::from_slice(b).into_iter::<StyleData>().last().unwrap_or(Err(serde::de::Error::custom("nothing"))).map_err(|e| e.to_string()),
        }
    }
}
fn plain(s: &str) -> bool {
    s.chars().all(|c| c.is_alphanumeric() || c == '-' || c == '_')
}
fn damaged(w: &mut World, b: &[u8], bin: bool, route: u8, kept: &mut Vec<StyleManager>, keep: bool) {
    alloc::reset_peak();
    let before = alloc::live().0;
    let r = calm("C10", "decoding damaged style data", || alloc::inside(|| decode(b, bin, route)));
    let used = alloc::peak() - before;
    // Rules may be nested, and room for the contents of each level be made in advance.
    must!("C10", used < (96 << 20) + 1000 * b.len() as i64, "memory", "decoding {} bytes of damaged style data took {used} bytes of memory", b.len());
    let data = match r {
        Err(e) => {
            run::see("rejected", &e);
            run::probe("damaged-rejected");
            return;
        }
        Ok(d) => d,
    };
    run::probe("damaged-decoded");
    // Well-formed: it can be sent on and means the same there.
    let v = calm("C10", "serialising decoded style data", || serde_json::to_value(&data)).unwrap_or_else(|e| world::broken("C10", "unserialisable", format!("decoded style data cannot be serialised: {e}")));
    run::see("decoded", &v.to_string());
    let again = calm("C10", "decoding style data", || (serde_json::from_value::<StyleData>(v.clone()).map_err(|e| e.to_string()), bincode::serialize(&data).map_err(|e| e.to_string()).and_then(|b| bincode::deserialize::<StyleData>(&b).map_err(|e| e.to_string()))));
    for a in [again.0, again.1] {
        match a {
            Ok(a) => {
                let v2 = serde_json::to_value(&a).unwrap_or_default();
                must!("C10", v2 == v, "not-well-formed", "decoded style data changes when it is sent on: {v} became {v2}");
            }
            Err(e) => must!("C10", false, "not-well-formed", "decoded style data cannot be decoded again: {e}; {v}"),
        }
    }
    // Listed and written as markup.
    let mut html = String::new();
    let wrote = calm("C10", "write_static_markup of decoded data", || data.write_static_markup(&mut html));
    must!("C10", wrote.is_ok(), "markup", "writing decoded style data to a string failed");
    let items = v.as_array().cloned().unwrap_or_default();
    let ids: Vec<String> = items.iter().map(|i| i["id"].as_str().unwrap_or("?").to_string()).collect();
    if ids.iter().all(|i| plain(i)) {
        match crate::markup::styles(&html) {
            Ok(l) => must!("C10", l.iter().map(|x| &x.0).eq(ids.iter()), "markup", "markup of decoded data lists {:?}, the data {ids:?}", l.iter().map(|x| &x.0).collect::<Vec<_>>()),
            Err(e) => must!("C10", false, "markup", "markup of decoded data: {e}"),
        }
    }
    let dbg = calm("C10", "printing decoded data", || format!("{data:?}").len());
    run::see("debug", &dbg.to_string());
    // Loaded, or refused because it contradicts itself.
    let mut seen: HashMap<String, String> = HashMap::new();
    let mut names: HashMap<String, String> = HashMap::new();
    let mut refuse = false;
    for i in &items {
        let id = i["id"].to_string();
        if let Some(o) = seen.insert(i["key"].to_string(), id.clone()) {
            refuse |= o != id;
        }
        if let Some(o) = names.insert(id, i["key"].to_string()) {
            refuse |= o != i["key"].to_string();
        }
    }
    let mgr = StyleManager::builder().build().unwrap();
    let loaded = run::guarded(|| mgr.load_style_data(&data));
    must!("C10", loaded.is_ok() != refuse, "load", "loading decoded data: {loaded:?}, but it {} {v}", if refuse { "contradicts itself:" } else { "is consistent:" });
    if loaded.is_ok() {
        run::probe("damaged-loaded");
    }
    // Into a manager in use: loaded or refused, but nothing there changes (checked by the caller).
    let into = w.mgrs[0].mgr.clone().unwrap();
    if let Some(k) = kept.last() {
        let _ = run::guarded(|| k.load_style_data(&data));
    }
    drop(into);
    if keep {
        kept.push(mgr);
    }
}
/// The server's styles, whatever came before.
fn intact(w: &mut World, s: &Sent, route: u8) {
    let data = calm("C10", "decoding intact style data", || decode(&s.bytes, s.bin, route));
    let data = match data {
        Ok(d) => d,
        Err(e) => world::broken("C10", "intact-rejected", format!("style data that arrived intact was rejected (route {route}): {e}")),
    };
    let n = w.mgrs.len();
    let prefix = s.caps.first().map(|c| c.key.prefix.clone()).unwrap_or("p".into());
    w.step(&Op::Mgr { prefix, writer: false });
    if w.mgrs.len() == n {
        return;
    }
    let mgr = w.mgrs[n].mgr.clone().unwrap();
    let r = run::guarded(|| mgr.load_style_data(&data));
    must!("C10", r.is_ok(), "intact-refused", "loading style data that arrived intact: {r:?}");
    for c in &s.caps {
        let sty = calm("C10", "creating a style", || w.make(n, c.key.g, if c.key.g { None } else { Some(c.key.prefix.as_str()) }, c.key.s, 4));
        match sty {
            Ok(x) => {
                must!("C10", x.id() == c.id, "intact-lost", "the server's style {} ({:?}) is {} after loading intact data", c.id, c.key, x.id());
                let d = crate::css::diff(&x.text(), &w.expect(&c.key, &c.id));
                must!("C10", d.is_none(), "intact-text", "text of the server's style {}: {}", c.id, d.unwrap());
            }
            Err(e) => world::broken("C10", "create-failed", e),
        }
    }
    w.mgrs.truncate(n);
}
fn body(t: usize, rng: u64, steps: Vec<Step>, sheets: Arc<Vec<(Model, Option<usize>)>>, sent: Arc<Vec<Sent>>) {
    seed_rng(rng);
    let mut w = World::new(t, sheets, Arc::default());
    let mut kept = vec![];
    w.create(0, false, None, 0, 0);
    for st in &steps {
        run::op(&format!("{st:?}"));
        let s = &sent[st.msg % sent.len()];
        let (mut b, mut bin) = (s.bytes.clone(), s.bin);
        for h in &st.hurt {
            run::fault(name(h));
            damage(&mut b, &mut bin, h, &sent);
        }
        if st.hurt.is_empty() || (b == s.bytes && bin == s.bin) {
            intact(&mut w, s, st.route);
        } else {
            damaged(&mut w, &b, bin, st.route, &mut kept, st.keep);
            if st.again > 0 && b.len() < 20000 {
                run::fault("transport.sent-again");
                for i in 0..st.again.min(200) {
                    let route = st.route.wrapping_add(i as u8 & st.route >> 2);
                    let _ = calm("C10", "decoding damaged style data", || decode(&b, bin, route).is_ok());
                }
            }
            if st.keep {
                intact(&mut w, s, st.route / 2);
            }
        }
        w.check_handles();
    }
    for (i, s) in sent.iter().enumerate() {
        intact(&mut w, s, i as u8);
    }
    w.end();
}
fn exec(v: Value) {
    let p: Plan = plan(v);
    activate("C10");
    let (sheets, _) = world::prepare(&world::WPlan { sched: p.sched.clone(), sheets: p.sheets, bad: vec![], bulk: 0, servers: vec![], threads: vec![] });
    if sheets.is_empty() {
        return;
    }
    let sent: Arc<Vec<Sent>> = Arc::new(p.servers.iter().enumerate().flat_map(|(i, s)| world::serve(i, s, &sheets)).collect());
    if sent.is_empty() {
        return;
    }
    let bodies: Vec<rt::Body> = p
        .threads
        .into_iter()
        .enumerate()
        .map(|(t, (rng, steps))| {
            let (sheets, sent) = (sheets.clone(), sent.clone());
            Box::new(move || body(t, rng, steps, sheets, sent)) as rt::Body
        })
        .collect();
    run::threads(&p.sched, bodies);
}
pub const SCENARIO: Scenario = Scenario {
    id: "C10",
    draw,
    exec,
    quick_runs: 6000,
    rule: "a run is 1-2 server processes that render 1-6 requests, and 1-3 client threads that receive the messages through a transport that truncates, flips, zeroes, repeats, drops, swaps, splices, duplicates and rewrites parts of them, decode them in one of 8 ways and, if that succeeds, send on, list, print and load the result; after and between, intact messages; distinct by the hash of its operations, faults and schedule",
};
