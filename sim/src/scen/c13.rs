//! C13: macro-made sheets denote what is written, with the interpolated expressions' current
//! values, on every thread and after any failure.
use super::world::seed_rng;
use super::*;
use crate::css::{self, Model};
use crate::ensure;
use crate::rt::{self, Sched};
use crate::run;
use macro_corpus::{Made, Site, SITES, V};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use stylist::manager::StyleManager;
use stylist::ast::ToStyleStr;
use stylist::Style;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Bad {
    /// The expression panics when evaluated.
    PanicEval,
    /// The value panics when it is formatted.
    PanicShow,
    /// The value reports an error when it is formatted (which `to_string` turns into a panic).
    ErrShow,
    /// The thread dies of it.
    DieEval,
    DieShow,
    /// The expression (or the formatting) reaches the same macro again.
    ReenterEval,
    ReenterShow,
    /// It uses another macro.
    OtherEval,
    YieldEval,
    YieldShow,
    SleepEval,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Use { site: usize, make: usize, vals: u64, bad: Option<(usize, Bad)> },
    /// Reaches the macro over and over with changing values.
    Loop { site: usize, make: usize, vals: u64, n: usize },
    Yield,
    Die,
}
#[derive(Serialize, Deserialize, Clone)]
struct Th {
    rng: u64,
    ops: Vec<Op>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    sched: Sched,
    threads: Vec<Th>,
}
fn draw(r: &mut Rng, thorough: bool) -> Value {
    let pool: Vec<usize> = (0..r.range(1, 4)).map(|_| r.below(SITES.len())).collect();
    let nt = *r.pick(&[1, 2, 2, 3, 4, 5]);
    let bad = r.chance(3, 5);
    let die = r.chance(1, 4);
    // Several threads come to the same macro at the very start.
    let first = r.chance(2, 3).then(|| (r.below(pool.len()), r.below(8)));
    let few = r.chance(1, 2);
    let threads = (0..nt)
        .map(|_| {
            let n = r.range(1, if thorough { 16 } else { 8 });
            let mut ops: Vec<Op> = (0..n)
                .map(|_| match r.below(16) {
                    0 if die => Op::Die,
                    1 => Op::Yield,
                    2 => Op::Loop { site: *r.pick(&pool), make: r.below(8), vals: r.next(), n: r.range(2, 6) },
                    _ => Op::Use {
                        site: *r.pick(&pool),
                        make: r.below(8),
                        vals: if few { r.below(3) as u64 } else { r.next() >> 16 },
                        bad: (bad && r.chance(1, 3)).then(|| {
                            let k = match r.below(14) {
                                0 | 1 => Bad::PanicEval,
                                2 | 3 => Bad::PanicShow,
                                4 => Bad::ErrShow,
                                5 if die => Bad::DieEval,
                                6 if die => Bad::DieShow,
                                7 => Bad::ReenterEval,
                                8 => Bad::ReenterShow,
                                9 => Bad::OtherEval,
                                10 | 11 => Bad::YieldEval,
                                12 => Bad::SleepEval,
                                _ => Bad::YieldShow,
                            };
                            (r.below(9), k)
                        }),
                    },
                })
                .collect();
            if let Some((s, make)) = first {
                ops.insert(0, Op::Use { site: pool[s], make, vals: r.next() >> 16, bad: None });
            }
            Th { rng: r.next(), ops }
        })
        .collect();
    serde_json::to_value(Plan { sched: Sched::draw(r), threads }).unwrap()
}
/// The values of a site's slots.
fn values(site: &Site, seed: u64) -> Vec<String> {
    let mut r = Rng::new(seed ^ 0x5117);
    site.slots
        .chars()
        .map(|c| match c {
            'v' => match r.below(6) {
                0 => format!("{}px", r.below(50)),
                _ => r.pick(&["red", "blue", "#FFF", "\"a b\"", "\"日本\"", "0", "calc(1px + 2%)", "\"</style>\"", "var(--x)", "rgba(1, 2, 3, 0.5)"]).to_string(),
            },
            'p' => r.pick(&["color", "margin", "--x", "größe"]).to_string(),
            'n' => r.pick(&["k1", "k-2", "Ka", "über"]).to_string(),
            's' => r.pick(&[".x1", "div.y", "#q", ".a > .b", "p:first-child"]).to_string(),
            _ => r.pick(&["(min-width: 3px)", "(max-width: 3px)", "(orientation: portrait)"]).to_string(),
        })
        .collect()
}
fn model(site: &Site, vals: &[String]) -> Model {
    fn walk(v: &mut Value, vals: &[String]) {
        match v {
            Value::String(s) if s.contains('\u{27e6}') => {
                for (k, x) in vals.iter().enumerate() {
                    *s = s.replace(&format!("\u{27e6}{k}\u{27e7}"), x);
                }
            }
            Value::Array(a) => a.iter_mut().for_each(|x| walk(x, vals)),
            Value::Object(o) => o.values_mut().for_each(|x| walk(x, vals)),
            _ => {}
        }
    }
    let mut v: Value = serde_json::from_str(site.model).expect("corpus");
    walk(&mut v, vals);
    serde_json::from_value(v).expect("corpus")
}
/// Sheets seen so far in this run, across all threads: the same macro with the same values is
/// the same sheet.
static mut SEEN: Option<HashMap<(usize, usize, Vec<String>), String>> = None;
#[allow(static_mut_refs)]
fn seen() -> &'static mut HashMap<(usize, usize, Vec<String>), String> {
    unsafe { SEEN.get_or_insert_with(HashMap::new) }
}
thread_local! {
    static DEPTH: Cell<usize> = const { Cell::new(0) };
    /// Classes of the styles this thread's default manager has got, by (global, sheet text).
    static MINE: RefCell<HashMap<String, String>> = RefCell::default();
}
struct Injected;
fn reach(si: usize, mk: usize, vals: u64, bad: &Option<(usize, Bad)>) {
    let si = si % SITES.len();
    let site = &SITES[si];
    let mk = mk % site.makes.len();
    let vals = values(site, vals);
    let bad = bad.as_ref().filter(|_| !vals.is_empty()).map(|(k, b)| (k % vals.len(), b));
    let evals: Vec<Cell<usize>> = vals.iter().map(|_| Cell::new(0)).collect();
    let hit = Cell::new(false);
    run::op(&format!("site {si} make {mk} {vals:?} {bad:?}"));
    let again = |show: bool| {
        if DEPTH.with(|d| d.get()) < 2 && !hit.replace(true) {
            run::fault(if show { "show.reentrant" } else { "eval.reentrant" });
            DEPTH.with(|d| d.set(d.get() + 1));
            reach(si, mk, 77, &None);
            DEPTH.with(|d| d.set(d.get() - 1));
        }
    };
    let boom = |kind: &str, die: bool| -> ! {
        run::fault(kind);
        hit.set(true);
        if die {
            std::panic::panic_any("thread death")
        } else {
            std::panic::panic_any(Injected)
        }
    };
    let again = &again;
    let boom = &boom;
    let vals_ref = &vals;
    let shown: Vec<Cell<usize>> = vals.iter().map(|_| Cell::new(0)).collect();
    let v = |k: usize| -> V<'_> {
        // k + 100: a constant is formatted, which may happen more than once.
        let n = if k < 100 { &evals[k] } else { &shown[k - 100] };
        n.set(n.get() + 1);
        let k = k % 100;
        let mine = bad.filter(|b| b.0 == k).map(|b| b.1);
        match mine {
            Some(Bad::PanicEval) => boom("eval.panic", false),
            Some(Bad::DieEval) => boom("eval.thread-death", true),
            Some(Bad::ReenterEval) => again(false),
            Some(Bad::OtherEval) => {
                run::fault("eval.other-macro");
                if DEPTH.with(|d| d.get()) < 2 {
                    DEPTH.with(|d| d.set(d.get() + 1));
                    reach(si + 1, mk, 78, &None);
                    DEPTH.with(|d| d.set(d.get() - 1));
                }
            }
            Some(Bad::YieldEval) => {
                run::fault("eval.yield");
                rt::yield_now()
            }
            Some(Bad::SleepEval) => {
                run::fault("eval.stall");
                std::thread::sleep(std::time::Duration::from_millis(3))
            }
            _ => {}
        }
        V(Box::new(move |f| {
            match mine {
                Some(Bad::PanicShow) => boom("show.panic", false),
                Some(Bad::DieShow) => boom("show.thread-death", true),
                Some(Bad::ErrShow) => {
                    run::fault("show.error");
                    return Err(std::fmt::Error);
                }
                Some(Bad::ReenterShow) => again(true),
                Some(Bad::YieldShow) => {
                    run::fault("show.yield");
                    rt::yield_now()
                }
                _ => {}
            }
            f.write_str(&vals_ref[k])
        }))
    };
    let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (site.makes[mk])(&v)));
    let made = match made {
        Ok(m) => m,
        Err(e) => {
            if let Some((_, b)) = bad {
                if hit.get() && matches!(b, Bad::DieEval | Bad::DieShow) {
                    std::panic::resume_unwind(e)
                }
                if hit.get() && matches!(b, Bad::PanicEval | Bad::PanicShow) {
                    // The panic that reaches the caller is the expression's own.
                    ensure!(e.is::<Injected>(), "panic-replaced", "site {si}: the expression's panic became {:?}", run::panic_text(&e));
                    return;
                }
                if *b == Bad::ErrShow {
                    return;
                }
            }
            ensure!(false, "macro-panic", "site {si} make {mk} with {vals:?} panicked: {}", run::panic_text(&e));
            return;
        }
    };
    if let Made::Rejected(e) = &made {
        ensure!(false, "macro-rejected", "site {si} make {mk}: a macro use that denotes a sheet does not compile: {e}");
    }
    if let Some((_, Bad::PanicEval | Bad::PanicShow | Bad::DieEval | Bad::DieShow)) = bad {
        ensure!(!hit.get(), "panic-swallowed", "site {si}: an interpolated expression panicked and the macro went on");
    }
    if let Some((_, Bad::ErrShow)) = bad {
        return;
    }
    for (k, (n, s)) in evals.iter().zip(&shown).enumerate() {
        ensure!(n.get() == 1 || n.get() == 0 && s.get() > 0, "evaluations", "site {si} make {mk}: interpolated expression {k} was evaluated {} times", n.get());
    }
    let m = model(site, &vals);
    let compare = |text: &str, class: Option<&str>, what: &str| {
        let d = css::diff(text, &m.expect(class));
        ensure!(d.is_none(), "wrong-sheet", "site {si} make {mk} ({what}) with {vals:?}: {}; got {text:?}", d.unwrap());
    };
    let same = |key: String| {
        let s = seen().entry((si, mk, vals.clone())).or_insert_with(|| key.clone()).clone();
        ensure!(s == key, "unequal", "site {si} make {mk} with {vals:?} made {key:?} and earlier {s:?}");
    };
    match made {
        Made::Sheet(s) => {
            compare(&s.to_style_str(Some("cls")), Some("cls"), "sheet!");
            compare(&s.to_style_str(None), None, "sheet!");
            same(serde_json::to_string(&s).unwrap());
        }
        Made::Source(s) => {
            let mgr = run::no_panic("building a manager", || StyleManager::new().unwrap());
            match run::no_panic("Style::new_with_manager", || Style::new_with_manager(s, &mgr)) {
                Ok(s) => {
                    compare(s.get_style_str(), Some(s.get_class_name()), "css!");
                    same(s.get_style_str().replace(s.get_class_name(), "\u{1}"));
                }
                Err(e) => ensure!(false, "refused", "site {si} make {mk} with {vals:?}: {e}"),
            }
        }
        Made::Style(Ok(s)) => {
            compare(s.get_style_str(), Some(s.get_class_name()), "style!");
            let key = s.get_style_str().replace(s.get_class_name(), "\u{1}");
            same(key.clone());
            let c = s.get_class_name().to_string();
            let o = MINE.with(|x| x.borrow_mut().entry(key).or_insert(c.clone()).clone());
            ensure!(o == c, "two-classes", "site {si} make {mk} with {vals:?} got class {c} and before, on this thread, {o}");
        }
        Made::Global(Ok(s)) => {
            compare(s.get_style_str(), None, "global_style!");
            same(s.get_style_str().to_string());
        }
        Made::Rejected(_) => {}
        Made::Style(Err(e)) | Made::Global(Err(e)) => ensure!(false, "refused", "site {si} make {mk} with {vals:?}: {e}"),
    }
}
fn body(th: Th) {
    seed_rng(th.rng);
    for op in th.ops {
        match op {
            Op::Use { site, make, vals, bad } => reach(site, make, vals, &bad),
            Op::Loop { site, make, vals, n } => {
                for k in 0..n {
                    reach(site, make, vals.wrapping_add(k as u64 % 3), &None);
                }
            }
            Op::Yield => rt::yield_now(),
            Op::Die => {
                run::fault("thread.death");
                std::panic::panic_any("thread death");
            }
        }
    }
}
fn exec(v: Value) {
    let p: Plan = plan(v);
    let uses: Vec<(usize, usize, u64)> = p.threads.iter().flat_map(|t| &t.ops).filter_map(|o| match o {
        Op::Use { site, make, vals, .. } => Some((*site, *make, *vals)),
        _ => None,
    }).collect();
    let dies: Vec<bool> = p.threads.iter().map(|t| t.ops.iter().any(|o| matches!(o, Op::Die | Op::Use { bad: Some((_, Bad::DieEval | Bad::DieShow)), .. }))).collect();
    let bodies = p.threads.into_iter().map(|t| Box::new(move || body(t)) as rt::Body).collect();
    let ok = run::threads(&p.sched, bodies);
    for (t, (ok, die)) in ok.iter().zip(&dies).enumerate() {
        ensure!(*ok || *die, "thread-died", "thread {t} died though nothing killed it");
    }
    // Whatever happened, every macro still works, on this thread and on a new one.
    for (site, make, vals) in uses.iter().take(12) {
        reach(*site, *make, *vals, &None);
        reach(*site, make + 1, vals + 1, &None);
    }
}
pub const SCENARIO: Scenario = Scenario {
    id: "C13",
    draw,
    exec,
    quick_runs: 6000,
    rule: "a run is 1-5 threads reaching 1-4 of 178 macro uses (css!, sheet!, style!, global_style!; literal and inline; with and without interpolations), often the same one first at once, with values that change from time to time and expressions that panic, kill their thread, fail to format, stall, yield or re-enter the macro; non-trivial when a fault was injected or several threads ran; distinct by the hash of its operations, faults and schedule",
};
