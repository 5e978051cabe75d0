//! C01: parsing is transparent under sharing, concurrency and history.
use super::*;
use crate::css::Model;
use crate::ensure;
use crate::rt::{self, Sched};
use crate::run;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use stylist::ast::{Sheet, ToStyleStr};
use stylist::StyleSource;

#[derive(Serialize, Deserialize, Clone)]
enum Text {
    Good(Model),
    /// Same meaning as text i, written differently.
    Again(usize, u64),
    Bad(String),
}
#[derive(Serialize, Deserialize, Clone)]
enum Op {
    Parse(usize),
    Source(usize, u8),
    Style(usize),
    /// The same text over and over.
    Flood(usize, usize),
    Yield,
    /// The thread panics between two parses and goes on.
    Panic,
    /// The thread dies here.
    Die,
    ClockJump(i64),
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    sched: Sched,
    texts: Vec<Text>,
    /// Texts parsed one after another before the threads start (long histories).
    warm: Vec<Model>,
    threads: Vec<Vec<Op>>,
}

fn draw(r: &mut Rng, _thorough: bool) -> Value {
    let n = r.range(1, 6);
    let mut texts: Vec<Text> = Model::family(r, n, 4).into_iter().map(Text::Good).collect();
    for _ in 0..r.below(3) {
        let i = r.below(n);
        texts.push(Text::Again(i, r.next()));
    }
    let bad = r.chance(1, 2);
    if bad {
        for _ in 0..r.range(1, 2) {
            let m = Model::draw(r, 3);
            texts.push(Text::Bad(m.malformed(r)));
        }
    }
    let warm = if r.chance(1, 25) {
        let k = *r.pick(&[40, 150, 600]);
        (0..k).map(|_| Model::draw(r, 2)).collect()
    } else {
        vec![]
    };
    let nt = *r.pick(&[1, 2, 2, 3, 3, 4, 6]);
    let die = r.chance(1, 6);
    let pan = r.chance(1, 5);
    let jump = r.chance(1, 6);
    let flood = r.chance(1, 6);
    if flood && r.chance(1, 3) {
        let m = Model::draw(r, 2);
        texts.push(Text::Bad(m.unclosed(r)));
    }
    let threads = (0..nt)
        .map(|_| {
            (0..r.range(1, 8))
                .map(|_| match r.below(20) {
                    0 if die => Op::Die,
                    1 | 2 if pan => Op::Panic,
                    3 if jump => Op::ClockJump(*r.pick(&[1_000_000_000, 3_600_000_000_000, -60_000_000_000])),
                    4 => Op::Yield,
                    5..=8 => Op::Source(r.below(texts.len()), r.below(4) as u8),
                    9 => Op::Style(r.below(texts.len())),
                    10 if flood => Op::Flood(r.below(texts.len()), *r.pick(&[5, 70, 140, 300])),
                    _ => Op::Parse(r.below(texts.len())),
                })
                .collect()
        })
        .collect();
    serde_json::to_value(Plan { sched: Sched::draw(r), texts, warm, threads }).unwrap()
}

struct Known {
    text: String,
    /// None: malformed.
    model: Option<Model>,
}
fn judge(k: &Known, got: Result<Sheet, String>) {
    match (&k.model, got) {
        (None, Err(_)) => {}
        (None, Ok(s)) => {
            ensure!(false, "malformed-accepted", "malformed text accepted as {:?}: {:?}", s.to_style_str(None), k.text)
        }
        (Some(_), Err(e)) => {
            ensure!(false, "good-rejected", "well-formed text rejected: {:?}: {}", k.text, run::clip(&e, 200))
        }
        (Some(m), Ok(s)) => {
            for class in [Some("cls"), None] {
                let printed = s.to_style_str(class);
                let d = crate::css::diff(&printed, &m.expect(class));
                ensure!(d.is_none(), "wrong-sheet", "text {:?} parsed to another sheet: {}; printed {:?}", k.text, d.unwrap(), printed);
            }
        }
    }
}
fn parse(k: &Known) -> Result<Sheet, String> {
    run::no_panic("parse", || k.text.parse::<Sheet>().map_err(|e| e.to_string()))
}
fn exec(v: Value) {
    let p: Plan = plan(v);
    let known: Arc<Vec<Known>> = Arc::new(
        p.texts
            .iter()
            .map(|t| match t {
                Text::Good(m) => Known { text: m.text(), model: Some(m.clone()) },
                Text::Again(i, n) => match p.texts.get(*i) {
                    Some(Text::Good(m)) => Known { text: m.text_with(*n), model: Some(m.clone()) },
                    _ => Known { text: "color: red;".into(), model: Some(Model { items: vec![crate::css::Item::Decl("color".into(), "red".into())], noise: 0 }) },
                },
                Text::Bad(b) => Known { text: b.clone(), model: None },
            })
            .collect(),
    );
    if known.is_empty() {
        return;
    }
    for m in &p.warm {
        let k = Known { text: m.text(), model: Some(m.clone()) };
        judge(&k, parse(&k));
    }
    if !p.warm.is_empty() {
        run::probe("long-history");
    }
    let bodies: Vec<rt::Body> = p
        .threads
        .iter()
        .cloned()
        .map(|ops| {
            let known = known.clone();
            Box::new(move || {
                let mut first: std::collections::HashMap<usize, Sheet> = Default::default();
                for op in ops {
                    match op {
                        Op::Parse(i) => {
                            let i = i % known.len();
                            run::op(&format!("parse {i}"));
                            let r = parse(&known[i]);
                            if let Ok(s) = &r {
                                let f = first.entry(i).or_insert_with(|| s.clone());
                                ensure!(f == s, "unstable", "parsing text {:?} again gives an unequal sheet", known[i].text);
                            }
                            run::see("ok", if r.is_ok() { "y" } else { "n" });
                            judge(&known[i], r);
                        }
                        Op::Source(i, how) => {
                            let k = &known[i % known.len()];
                            run::op(&format!("source {i} {how}"));
                            let r: Result<StyleSource, String> = run::no_panic("StyleSource", || {
                                match how {
                                    0 => StyleSource::try_from(k.text.as_str()),
                                    1 => StyleSource::try_from(k.text.clone()),
                                    2 => StyleSource::try_from(std::borrow::Cow::Borrowed(k.text.as_str())),
                                    _ => k.text.parse::<StyleSource>(),
                                }
                                .map_err(|e| e.to_string())
                            });
                            ensure!(r.is_ok() == k.model.is_some(), "source-verdict", "text {:?}: accepted={} but well-formed={}", k.text, r.is_ok(), k.model.is_some());
                        }
                        Op::Style(i) => {
                            let k = &known[i % known.len()];
                            run::op(&format!("style {i}"));
                            let r = run::no_panic("Style::new", || stylist::Style::new(k.text.as_str()).map_err(|e| e.to_string()));
                            match (&k.model, r) {
                                (Some(m), Ok(s)) => {
                                    let d = crate::css::diff(s.get_style_str(), &m.expect(Some(s.get_class_name())));
                                    ensure!(d.is_none(), "wrong-style", "style of text {:?}: {}", k.text, d.unwrap());
                                }
                                (None, Err(_)) => {}
                                (m, r) => ensure!(false, "style-verdict", "text {:?}: well-formed={} created={}", k.text, m.is_some(), r.is_ok()),
                            }
                        }
                        Op::Flood(i, n) => {
                            let k = &known[i % known.len()];
                            run::op(&format!("flood {i} {n}"));
                            for _ in 0..n.min(if k.text.len() > 4000 { 70 } else { 400 }) {
                                let r = parse(k);
                                ensure!(r.is_ok() == k.model.is_some(), "flood-verdict", "text {:?}: accepted={} but well-formed={}", run::clip(&k.text, 300), r.is_ok(), k.model.is_some());
                            }
                            run::probe(if k.model.is_some() { "parsed-over-and-over" } else { "rejected-over-and-over" });
                        }
                        Op::Yield => rt::yield_now(),
                        Op::Panic => {
                            run::fault("thread.panic-caught");
                            let _ = run::guarded(|| panic!("injected"));
                        }
                        Op::Die => {
                            run::fault("thread.death");
                            panic!("injected death");
                        }
                        Op::ClockJump(ns) => {
                            run::fault("clock.jump");
                            rt::clock_jump(ns);
                        }
                    }
                }
            }) as rt::Body
        })
        .collect();
    run::threads(&p.sched, bodies);
    // Afterwards, on a thread that outlived all of them, everything still means the same.
    for k in known.iter() {
        judge(k, parse(k));
    }
    for m in p.warm.iter().step_by(7) {
        let k = Known { text: m.text(), model: Some(m.clone()) };
        judge(&k, parse(&k));
    }
}
pub const SCENARIO: Scenario = Scenario {
    id: "C01",
    draw,
    exec,
    quick_runs: 6000,
    rule: "a run is 1-6 threads parsing 1-9 related texts (near-identical, rewritten, malformed) under a seeded schedule; non-trivial when at least two threads ran or at least one context switch, fault or long history occurred; distinct by the hash of its operations, faults and schedule",
};
