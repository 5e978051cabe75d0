//! C08: static markup is exactly the captured styles, or an error.
use super::world::{self, about, activate, calm, seed_rng, Src};
use super::*;
use crate::css::{self, Fact, Model};
use crate::must;
use crate::rt::{self, Sched};
use crate::run;
use serde::{Deserialize, Serialize};
use std::fmt::Write;
use std::sync::Arc;
use stylist::manager::{render_static, StyleData, StyleManager};
use stylist::{css as css_macro, GlobalStyle, Style};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum What {
    Sheet(usize),
    /// An interpolated value.
    Value(usize),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Kind {
    /// Fails from the byte on, for good; accepting what still fits or not.
    Fail { partial: bool },
    /// Fails once and would then go on.
    FailOnce,
    Panic,
    /// The sink uses stylist itself: 0 creates styles in the same manager, 1 writes the same data
    /// elsewhere, 2 parses a sheet, 3 makes and reads another manager.
    Reenter(u8),
    /// Lets other threads run in every write.
    Slow,
    Sleep,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Sink {
    /// Position, in thousandths of the whole markup.
    at: usize,
    kind: Kind,
    /// Whose data: 0 its own, otherwise whatever other threads posted.
    whose: usize,
}
#[derive(Serialize, Deserialize, Clone)]
struct Th {
    rng: u64,
    prefix: String,
    styles: Vec<(bool, What)>,
    sinks: Vec<Sink>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    sched: Sched,
    sheets: Vec<Src>,
    threads: Vec<Th>,
}
const VALUES: &[&str] = &[
    "red", "\"</style>\"", "\"</style ><script>alert(1)</script>\"", "\"<!--\"", "\"-->\"", "\"</sTyLe\t/>\"", "url(\"a</style>b\")", "\"</style<\"", "\"<</style>\"",
    "\"</st</style>yle>\"", "\"\\\\</style>\"", "\"<!</style>--\"", "\"</style\u{c}>\"", "\"&lt;/style&gt;\"", "\"]]></style>\"", "\"日本</style>語\"", "\"<!<!--\"", "\"<\\!--\"",
];
fn draw(r: &mut Rng, thorough: bool) -> Value {
    let n = r.range(1, 5);
    let sheets: Vec<Src> = Model::family(r, n, 3).into_iter().map(Src::M).collect();
    let nt = *r.pick(&[1, 1, 2, 3]);
    let threads = (0..nt)
        .map(|_| Th {
            rng: r.next(),
            prefix: r.pick(&["stylist", "a", "app-x", "style", "größe"]).to_string(),
            styles: {
                let n = if r.chance(1, 30) { 60 } else { r.range(0, 6) };
                (0..n).map(|_| (r.chance(1, 3), if r.chance(1, 2) { What::Value(r.below(VALUES.len() * 8)) } else { What::Sheet(r.below(sheets.len())) })).collect()
            },
            sinks: (0..r.range(1, if thorough { 14 } else { 7 }))
                .map(|_| Sink {
                    at: *r.pick(&[0, 1000]) * r.below(2) + r.below(1001),
                    kind: match r.below(9) {
                        0 | 1 => Kind::Fail { partial: r.chance(1, 2) },
                        2 | 3 => Kind::FailOnce,
                        4 => Kind::Panic,
                        5 | 6 => Kind::Reenter(r.below(4) as u8),
                        7 => Kind::Slow,
                        _ => Kind::Sleep,
                    },
                    whose: r.below(3),
                })
                .collect(),
        })
        .collect();
    serde_json::to_value(Plan { sched: Sched::draw(r), sheets, threads }).unwrap()
}
struct Case {
    data: StyleData,
    want: Vec<(String, Vec<Fact>)>,
}
static mut MAIL: Vec<Arc<Case>> = vec![];
#[allow(static_mut_refs)]
fn mail() -> &'static mut Vec<Arc<Case>> {
    unsafe { &mut MAIL }
}
struct S<'a> {
    got: String,
    limit: usize,
    kind: &'a Kind,
    fired: bool,
    calls: usize,
    mgr: &'a StyleManager,
    data: &'a StyleData,
}
impl Write for S<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        match self.kind {
            Kind::Slow => rt::yield_now(),
            Kind::Sleep => std::thread::sleep(std::time::Duration::from_millis(5)),
            _ => {}
        }
        let over = self.got.len() + s.len() > self.limit;
        match self.kind {
            Kind::Fail { partial } if over => {
                if *partial && !self.fired {
                    let mut k = self.limit - self.got.len();
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    self.got.push_str(&s[..k]);
                }
                if !self.fired {
                    run::fault("sink.error");
                }
                self.fired = true;
                return Err(std::fmt::Error);
            }
            Kind::FailOnce if over && !self.fired => {
                run::fault("sink.error-once");
                self.fired = true;
                return Err(std::fmt::Error);
            }
            Kind::Panic if over && !self.fired => {
                run::fault("sink.panic");
                self.fired = true;
                panic!("injected sink panic");
            }
            Kind::Reenter(k) if over && !self.fired => {
                run::fault("sink.reentrant");
                self.fired = true;
                match k {
                    0 => {
                        let a = Style::new_with_manager("margin: 77px;", self.mgr).map(|s| s.get_class_name().to_string());
                        let b = GlobalStyle::new_with_manager("margin: 78px;", self.mgr).is_ok();
                        must!("C08", a.is_ok() && b, "reentrant", "creating a style while its manager's data is written fails");
                    }
                    1 => {
                        let mut o = String::new();
                        let r = self.data.write_static_markup(&mut o);
                        must!("C08", r.is_ok(), "reentrant", "writing the same data twice at once fails");
                    }
                    2 => {
                        let r = "color: red; .x { margin: 3px; }".parse::<stylist::ast::Sheet>();
                        must!("C08", r.is_ok(), "reentrant", "parsing while data is written fails");
                    }
                    _ => {
                        let (w, r) = render_static();
                        let m = StyleManager::builder().writer(w).build().unwrap();
                        let st = Style::new_with_manager("margin: 79px;", &m).unwrap();
                        let l = world::listed(&r.read_style_data()).unwrap_or_default();
                        must!("C08", l.len() == 1 && l[0].0 == st.get_class_name(), "reentrant", "another manager captured {l:?} while data was written");
                    }
                }
            }
            _ => {}
        }
        self.got.push_str(s);
        Ok(())
    }
}
fn check_full(c: &Case) -> String {
    let mut full = String::new();
    let r = calm("C08", "write_static_markup", || c.data.write_static_markup(&mut full));
    must!("C08", r.is_ok(), "healthy-sink", "writing to a string failed");
    let got = match crate::markup::styles(&full) {
        Ok(g) => g,
        Err(e) => world::broken("C08", "bad-markup", format!("the markup is not a list of style elements: {e}; {full:?}")),
    };
    let ids: Vec<&String> = got.iter().map(|g| &g.0).collect();
    let want: Vec<&String> = c.want.iter().map(|g| &g.0).collect();
    must!("C08", ids == want, "elements", "style elements {ids:?}, captured styles {want:?}; {full:?}");
    for ((id, text), (_, facts)) in got.iter().zip(&c.want) {
        let d = css::diff_escaped(text, facts);
        must!("C08", d.is_none(), "wrong-css", "CSS of element {id}: {}; {text:?}", d.unwrap());
    }
    full
}
fn body(th: Th, sheets: Arc<Vec<(Model, Option<usize>)>>) {
    seed_rng(th.rng);
    let (w, r) = render_static();
    let mgr = match calm("C08", "building a manager", || StyleManager::builder().prefix(th.prefix.clone().into()).writer(w).build()) {
        Ok(m) => m,
        Err(_) => return,
    };
    let mut want: Vec<(String, Vec<Fact>)> = vec![];
    for (g, what) in &th.styles {
        let (model, src): (Model, Result<stylist::StyleSource, stylist::Error>) = match what {
            What::Sheet(i) => {
                let m = sheets[i % sheets.len()].0.clone();
                let t = m.text();
                (m, t.try_into())
            }
            What::Value(i) => {
                let v = VALUES[i % VALUES.len()];
                let k = i / VALUES.len() % 3;
                let px = i / VALUES.len();
                let d = css::Item::Decl("content".into(), v.to_string());
                let w = css::Item::Decl("margin".into(), format!("{px}px"));
                let s = match k {
                    0 => css_macro!("content: ${v}; margin: ${px}px;", v = v, px = px),
                    1 => css_macro!(content: ${v}; margin: ${format!("{px}px")};),
                    _ => css_macro!("margin: ${px}px; content: ${v};", v = v, px = px),
                };
                (Model { items: if k == 2 { vec![w, d] } else { vec![d, w] }, noise: 0 }, Ok(s))
            }
        };
        let Ok(src) = src else { continue };
        let made = calm("C08", "creating a style", || if *g { GlobalStyle::new_with_manager(src, &mgr).map(|s| (s.id().to_string(), None)) } else { Style::new_with_manager(src, &mgr).map(|s| (s.id().to_string(), Some(s.get_class_name().to_string()))) });
        if let Ok((id, class)) = made {
            if !want.iter().any(|w| w.0 == id) {
                want.push((id, model.expect(class.as_deref())));
            }
        }
    }
    let data = calm("C08", "reading style data", || r.read_style_data());
    let own = Arc::new(Case { data, want });
    mail().push(own.clone());
    for s in &th.sinks {
        let case = if s.whose == 0 { own.clone() } else { mail()[s.whose % mail().len()].clone() };
        let full = check_full(&case);
        run::op(&format!("write to {s:?}"));
        let mut sink = S { got: String::new(), limit: full.len() * s.at.min(1000) / 1000, kind: &s.kind, fired: false, calls: 0, mgr: &mgr, data: &case.data };
        let r = run::guarded(|| case.data.write_static_markup(&mut sink));
        run::see("written", &format!("{} of {} {:?}", sink.got.len(), full.len(), r.as_ref().map(|x| x.is_ok()).ok()));
        must!("C08", full.starts_with(sink.got.as_str()), "not-a-prefix", "a failing sink got {:?}, not the beginning of {full:?}", sink.got);
        match (&s.kind, sink.fired) {
            (Kind::Fail { .. } | Kind::FailOnce, true) => must!("C08", matches!(r, Ok(Err(_))), "error-swallowed", "the sink failed ({s:?}) but the caller was told {r:?}"),
            (Kind::Panic, true) => must!("C08", r.is_err(), "panic-swallowed", "the sink panicked but the caller was told {r:?}"),
            _ => {
                must!("C08", matches!(r, Ok(Ok(()))), "healthy-sink", "no write failed ({s:?}) but the caller was told {r:?}");
                must!("C08", sink.got == full, "incomplete", "the sink got {:?} of {full:?}", sink.got);
            }
        }
        let again = check_full(&case);
        must!("C08", again == full, "unstable", "writing again gave {again:?} instead of {full:?}");
    }
}
fn exec(v: Value) {
    let p: Plan = plan(v);
    activate("C08");
    let _ = about("");
    let mut seen = std::collections::HashSet::new();
    let sheets: Vec<(Model, Option<usize>)> = p.sheets.iter().map(|s| match s { Src::M(m) => (m.clone(), None), Src::Fixed(k) => (crate::corpus::model(*k), Some(*k)) }).filter(|m| seen.insert(m.0.key())).collect();
    if sheets.is_empty() {
        return;
    }
    let sheets = Arc::new(sheets);
    let bodies = p.threads.into_iter().map(|t| { let sheets = sheets.clone(); Box::new(move || body(t, sheets)) as rt::Body }).collect();
    let ok = run::threads(&p.sched, bodies);
    must!("C08", ok.iter().all(|x| *x), "thread-died", "a writing thread died");
    for c in mail().iter() {
        check_full(c);
    }
}
pub const SCENARIO: Scenario = Scenario {
    id: "C08",
    draw,
    exec,
    quick_runs: 6000,
    rule: "a run is 1-3 threads that capture 0-60 styles (with strings, selectors and interpolated values chosen to look like markup) and write the data, their own or another thread's, to 1-7 sinks that fail, fail once, panic, re-enter the library, yield or sleep at a drawn position; non-trivial when a fault was injected or several threads ran; distinct by the hash of its operations, faults and schedule",
};
