//! C05 and C06: what is in the document, and what happens when the document fails.
use super::*;
use crate::css::{self, Model};
use crate::ensure;
use crate::run;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use stylist::manager::StyleManager;
use stylist::{GlobalStyle, Style};
use wasm_bindgen::JsCast;
use web_sys::{Element, Node, ShadowRootInit, ShadowRootMode};

/// Where styles can be mounted.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
#[serde(rename_all = "lowercase")]
enum Place {
    Head,
    Body,
    Div,
    Shadow,
    /// An element in a shadow tree.
    InShadow,
    /// A node that is in no document.
    Detached,
    Fragment,
    /// The head of another document, as that of an iframe.
    Frame,
}
#[derive(Serialize, Deserialize, Clone)]
struct Mg {
    /// Index into the places; none: whatever the default is.
    place: Option<usize>,
    append: bool,
    prefix: String,
}
/// The n-th to (n+len-1)-th thing that an operation asks of the browser fails.
#[derive(Serialize, Deserialize, Clone, Copy)]
struct Fault {
    nth: u32,
    len: u32,
}
#[derive(Serialize, Deserialize, Clone)]
#[serde(rename_all = "lowercase")]
enum Do {
    /// Through manager `m` (counted cyclically; past the last: the default manager).
    New { m: usize, global: bool, sheet: usize, prefix: Option<String> },
    Clone(usize),
    Drop(usize),
    Unregister(usize),
    Manager(Mg),
    DropManager(usize),
    /// Another script: adds a node to a place.
    Foreign { place: usize, what: u8, at: u8 },
    /// Another script: takes out the k-th child of a place, or moves it to another one.
    Take { place: usize, k: usize, to: Option<usize> },
    /// Another script: puts the container itself in or out of the document.
    Attach { place: usize },
    /// Styles that a server rendered: their markup is put into a place, their data loaded.
    Load { m: usize, place: usize, rng: u64, styles: Vec<(bool, usize, u8)> },
}
#[derive(Serialize, Deserialize, Clone)]
struct Step {
    op: Do,
    fault: Option<Fault>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    places: Vec<Place>,
    sheets: Vec<Model>,
    steps: Vec<Step>,
}
const PREFIXES: &[&str] = &["stylist", "app", "größe", "-x", "9lives", "a\"b", "a\\b", "a]b", "x.y", "a'b", "a b", ""];

fn load_op(r: &mut Rng, sheets: &[Model]) -> Step {
    let styles = (0..r.range(1, 5)).map(|_| (r.chance(1, 3), r.below(sheets.len()), r.below(12) as u8)).collect();
    Step { op: Do::Load { m: r.below(5), place: r.below(6), rng: r.next(), styles }, fault: None }
}
fn draw_with(r: &mut Rng, thorough: bool, faults: bool) -> Value {
    let all = [Place::Head, Place::Body, Place::Div, Place::Shadow, Place::InShadow, Place::Detached, Place::Fragment, Place::Frame];
    let places: Vec<Place> = (0..r.range(1, 4)).map(|_| if r.chance(1, 4) { Place::Head } else { *r.pick(&all) }).collect();
    let n = r.range(1, 5);
    let sheets = Model::family(r, n, 2);
    let prefix = |r: &mut Rng| if r.chance(2, 3) { r.pick(&PREFIXES[..4]).to_string() } else { r.pick(PREFIXES).to_string() };
    let mg = |r: &mut Rng| Mg { place: r.chance(5, 6).then(|| r.below(places.len())), append: r.chance(1, 2), prefix: prefix(r) };
    let mut steps = vec![];
    for _ in 0..r.range(0, 2) {
        steps.push(Step { op: Do::Foreign { place: r.below(places.len()), what: r.below(6) as u8, at: r.below(3) as u8 }, fault: None });
    }
    for _ in 0..r.range(1, 3) {
        steps.push(Step { op: Do::Manager(mg(r)), fault: None });
    }
    // The more faults, the fewer clean runs in between: several intensities.
    let (num, den) = *r.pick(&[(1, 2), (1, 4), (1, 10)]);
    let load = cfg!(feature = "hydrate") && r.chance(1, 2);
    if load && r.chance(2, 3) {
        steps.push(load_op(r, &sheets));
    }
    for _ in 0..r.range(4, if thorough { 60 } else { 30 }) {
        if load && r.chance(1, 12) {
            steps.push(load_op(r, &sheets));
        }
        let op = match r.below(24) {
            0..=9 => Do::New {
                m: r.below(5),
                global: r.chance(1, 3),
                sheet: r.below(sheets.len()),
                prefix: r.chance(1, 4).then(|| prefix(r)),
            },
            10 => Do::Clone(r.below(64)),
            11..=14 => Do::Drop(r.below(64)),
            15..=17 => Do::Unregister(r.below(64)),
            18 => Do::Manager(mg(r)),
            19 => Do::DropManager(r.below(5)),
            20 | 21 => Do::Foreign { place: r.below(places.len()), what: r.below(6) as u8, at: r.below(3) as u8 },
            22 => Do::Take { place: r.below(places.len()), k: r.below(8), to: r.chance(1, 2).then(|| r.below(places.len())) },
            _ => Do::Attach { place: r.below(places.len()) },
        };
        let fault = (faults && r.chance(num, den)).then(|| Fault { nth: r.below(9) as u32, len: *r.pick(&[1, 1, 1, 2, 3, 99]) });
        steps.push(Step { op, fault });
    }
    serde_json::to_value(Plan { places, sheets, steps }).unwrap()
}

struct Rec {
    class: String,
    text: String,
    sheet: usize,
    global: bool,
    handles: usize,
    registered: bool,
    mgr: usize,
    /// Came from a server: the text of its element.
    sent: Option<String>,
}
struct Mgr {
    handle: Option<StyleManager>,
    place: usize,
    append: bool,
    prefix: String,
    reg: BTreeMap<(bool, String, String), usize>,
}
enum H {
    Scoped(Style),
    Global(GlobalStyle),
}
impl H {
    fn class(&self) -> String {
        match self {
            H::Scoped(s) => s.get_class_name().to_string(),
            H::Global(s) => s.id().to_string(),
        }
    }
    fn text(&self) -> String {
        match self {
            H::Scoped(s) => s.get_style_str().to_string(),
            H::Global(s) => s.get_style_str().to_string(),
        }
    }
}
#[derive(Clone)]
enum Tok {
    Foreign(Node, String),
    Style(usize),
    /// Its removal was made to fail.
    Maybe(usize),
}
struct Site {
    node: Node,
    /// What can be put in and out of the document, and where it belongs.
    hung: Option<(Node, Node)>,
    kids: Vec<Tok>,
}
struct World {
    sites: Vec<Site>,
    /// Plan's places to sites: several may be one node.
    of: Vec<usize>,
    mgrs: Vec<Mgr>,
    default: Option<usize>,
    recs: Vec<Rec>,
    hs: Vec<Option<(H, usize)>>,
    sheets: Vec<Model>,
    head: usize,
    foreign: u32,
}
fn text_of(n: &Node) -> String {
    match n.dyn_ref::<Element>() {
        Some(e) => e.outer_html(),
        None => format!("{}:{:?}", n.node_name(), n.node_value()),
    }
}
impl World {
    fn new(p: &Plan) -> World {
        let doc = web_sys::sim::the_document();
        let (head, body): (Node, Node) = (doc.head().unwrap().into(), doc.body().unwrap().into());
        let mut w = World { sites: vec![], of: vec![], mgrs: vec![], default: None, recs: vec![], hs: vec![], sheets: p.sheets.clone(), head: 0, foreign: 0 };
        w.site(head.clone(), None);
        for pl in &p.places {
            let div = |attach: bool| {
                let d: Node = doc.create_element("div").unwrap().into();
                if attach {
                    body.append_child(&d).unwrap();
                }
                d
            };
            let shadow = |d: &Node| -> Node { d.unchecked_ref::<Element>().attach_shadow(&ShadowRootInit::new(ShadowRootMode::Open)).unwrap().into() };
            let i = match pl {
                Place::Head => 0,
                Place::Body => w.site(body.clone(), None),
                Place::Div => {
                    let d = div(true);
                    w.site(d.clone(), Some((d, body.clone())))
                }
                Place::Shadow => {
                    let d = div(true);
                    w.site(shadow(&d), Some((d, body.clone())))
                }
                Place::InShadow => {
                    let d = div(true);
                    let s = shadow(&d);
                    let k = div(false);
                    s.append_child(&k).unwrap();
                    w.site(k.clone(), Some((k, s)))
                }
                Place::Detached => {
                    let d = div(false);
                    w.site(d.clone(), Some((d, body.clone())))
                }
                Place::Fragment => w.site(doc.create_document_fragment().into(), None),
                Place::Frame => w.site(web_sys::sim::other_document().head().unwrap().into(), None),
            };
            w.of.push(i);
        }
        // Places inside the body are foreign nodes to it.
        for s in &mut w.sites {
            s.kids = web_sys::sim::kids(&s.node).into_iter().map(|n| Tok::Foreign(n, String::new())).collect();
        }
        w
    }
    fn site(&mut self, n: Node, hung: Option<(Node, Node)>) -> usize {
        if let Some(i) = self.sites.iter().position(|s| s.node == n) {
            return i;
        }
        self.sites.push(Site { node: n, hung, kids: vec![] });
        self.sites.len() - 1
    }
    fn place(&self, p: usize) -> usize {
        self.of[p % self.of.len()]
    }
    fn live(&self, r: usize) -> bool {
        let r = &self.recs[r];
        r.handles > 0 || r.registered
    }
    /// What is in the sites is what should be.
    fn check(&mut self, when: &str) {
        for (i, s) in self.sites.iter_mut().enumerate() {
            let kids = web_sys::sim::kids(&s.node);
            // A style whose removal failed may be there or not.
            let recs = &self.recs;
            let style = |n: &Node, r: usize| -> Option<String> {
                let r = &recs[r];
                let Some(e) = n.dyn_ref::<Element>() else { return Some("not an element".into()) };
                let names = e.get_attribute_names();
                if e.tag_name() != "STYLE" {
                    return Some(format!("an element <{}>", e.tag_name()));
                }
                if names.length() != 1 || e.get_attribute("data-style").as_deref() != Some(&r.class) {
                    return Some(format!("the element {}", run::clip(&e.outer_html(), 200)));
                }
                if e.text_content().as_deref() != Some(r.sent.as_ref().unwrap_or(&r.text)) {
                    return Some(format!("an element with the text {:?}", e.text_content()));
                }
                None
            };
            let mut k = 0;
            let mut out = vec![];
            for t in &s.kids {
                match t {
                    Tok::Foreign(n, html) => {
                        ensure!(kids.get(k) == Some(n), "foreign-touched", "{when}: child {k} of place {i} should be a node that stylist did not put there, but is {}", kids.get(k).map(text_of).unwrap_or("missing".into()));
                        ensure!(html.is_empty() || text_of(n) == *html, "foreign-touched", "{when}: a node that stylist did not make was changed: {} was {html}", text_of(n));
                        k += 1;
                        out.push(t.clone());
                    }
                    Tok::Style(r) => {
                        let bad = match kids.get(k) {
                            None => Some("nothing".to_string()),
                            Some(n) => style(n, *r),
                        };
                        ensure!(bad.is_none(), "style-element", "{when}: child {k} of place {i} ({:?}) should be the style element of {:?}, but there is {}; children: {}", text_of(&s.node).chars().take(12).collect::<String>(), recs[*r].class, bad.unwrap(), run::clip(&kids.iter().map(text_of).collect::<Vec<_>>().join(" "), 600));
                        k += 1;
                        out.push(t.clone());
                    }
                    Tok::Maybe(r) => {
                        // (A copy that another script made is not it.)
                        let foreign = |n: &Node| s.kids.iter().any(|t| matches!(t, Tok::Foreign(x, _) if x == n));
                        if kids.get(k).map(|n| style(n, *r).is_none() && !foreign(n)).unwrap_or(false) {
                            k += 1;
                            out.push(t.clone());
                        }
                    }
                }
            }
            ensure!(k == kids.len(), "extra-element", "{when}: place {i} has {} more children than it should: {}", kids.len() - k, run::clip(&kids[k..].iter().map(text_of).collect::<Vec<_>>().join(" "), 600));
            s.kids = out;
        }
        // Handles keep their name and text.
        for (h, r) in self.hs.iter().flatten() {
            let r = &self.recs[*r];
            ensure!(h.class() == r.class && h.text() == r.text, "handle-changed", "{when}: the handle of {:?} changed to {:?}", r.class, h.class());
        }
    }
    /// A style is gone: its element, wherever it is, has been removed.
    fn settle(&mut self, r: usize, failed: bool) {
        if self.live(r) {
            return;
        }
        // A server's style is looked up in the document.
        let dark: Vec<bool> = (0..self.sites.len()).map(|i| self.recs[r].sent.is_some() && !self.lit(i)).collect();
        for (s, dark) in self.sites.iter_mut().zip(dark) {
            if failed || dark {
                s.kids.iter_mut().for_each(|t| {
                    if matches!(t, Tok::Style(x) if *x == r) {
                        *t = Tok::Maybe(r)
                    }
                });
            } else {
                s.kids.retain(|t| !matches!(t, Tok::Style(x) if *x == r));
            }
        }
    }
    /// The text of a style is what was asked for.
    fn means(&self, r: usize) {
        let r = &self.recs[r];
        // (The independent reader takes only real identifiers as class names.)
        if !r.class.contains(|c: char| "\"\\]. '".contains(c)) && !r.class.starts_with(|c: char| c.is_ascii_digit()) && !r.class.starts_with("-") {
            if let Some(d) = css::diff(&r.text, &self.sheets[r.sheet].expect((!r.global).then_some(r.class.as_str()))) {
                run::violate("wrong-text", format!("the text of {:?} is not what was asked for: {d}", r.class));
            }
        }
    }
    #[cfg(not(feature = "hydrate"))]
    fn load(&mut self, _m: usize, _place: usize, _rng: u64, _styles: &[(bool, usize, u8)]) {}
    /// A server renders styles, and the page is delivered with them.
    #[cfg(feature = "hydrate")]
    fn load(&mut self, m: usize, place: usize, rng: u64, styles: &[(bool, usize, u8)]) {
        let mi = match self.mgr(m) {
            Some(mi) => mi,
            None => *self.default.get_or_insert_with(|| {
                self.mgrs.push(Mgr { handle: None, place: self.head, append: true, prefix: "stylist".into(), reg: Default::default() });
                self.mgrs.len() - 1
            }),
        };
        let prefix = self.mgrs[mi].prefix.clone();
        // (The markup does not escape names.)
        if prefix.contains('"') {
            return;
        }
        // What the page has got already is not asked of the server.
        let mut want: Vec<((bool, String, String), usize)> = vec![];
        for (g, s, p) in styles {
            let s = s % self.sheets.len();
            let p = if *g || *p > 5 { prefix.clone() } else { PREFIXES[[0, 1, 2, 3, 6, 9][*p as usize]].to_string() };
            let key = (*g, p, self.sheets[s].key());
            if !self.mgrs[mi].reg.contains_key(&key) && !want.iter().any(|w| w.0 == key) {
                want.push((key, s));
            }
        }
        let end = run::node("server", rng, || {
            seed_rng(rng);
            wasm_bindgen::sim::set_server(true);
            wasm_bindgen::sim::set_fault(Some(Rc::new(|op, _| op == "window")));
            let (w, rd) = stylist::manager::render_static();
            let mgr = StyleManager::builder().prefix(prefix.clone().into()).writer(w).container(web_sys::sim::the_document().into()).build().unwrap();
            let ids: Vec<String> = want
                .iter()
                .map(|((g, p, _), s)| {
                    let text = self.sheets[*s].text();
                    match g {
                        true => GlobalStyle::new_with_manager(text.as_str(), &mgr).unwrap().id().to_string(),
                        false => Style::create_with_manager(p.clone(), text.as_str(), &mgr).unwrap().get_class_name().to_string(),
                    }
                })
                .collect();
            let data = rd.read_style_data();
            let mut markup = String::new();
            data.write_static_markup(&mut markup).unwrap();
            serde_json::json!([ids, markup, data])
        });
        let run::NodeEnd::Value(v) = end else { run::violate("harness", "the server ended early".into()) };
        let (ids, markup, data): (Vec<String>, String, stylist::manager::StyleData) = match serde_json::from_value(v) {
            Ok(x) => x,
            Err(e) => run::violate("harness", format!("what the server sent: {e}")),
        };
        // In the document, wherever the page's template has it.
        let parsed: Node = web_sys::sim::the_document().create_element("div").unwrap().into();
        web_sys::sim::fill(&parsed, &markup);
        let els = web_sys::sim::kids(&parsed);
        ensure!(els.len() == ids.len(), "markup", "the markup of {} styles has {} elements: {markup}", ids.len(), els.len());
        let spots: Vec<usize> = (0..self.sites.len()).filter(|i| self.lit(*i)).collect();
        let at = spots[place % spots.len()];
        run::op(&format!("a server's {} styles for manager {mi} arrive in place {at}", ids.len()));
        for ((key, s), (id, e)) in want.into_iter().zip(ids.into_iter().zip(els)) {
            let text = e.text_content().unwrap_or_default();
            self.sites[at].node.append_child(&e).unwrap();
            let r = self.recs.len();
            self.sites[at].kids.push(Tok::Style(r));
            self.recs.push(Rec { class: id, text: String::new(), sheet: s, global: key.0, handles: 0, registered: true, mgr: mi, sent: Some(text) });
            self.mgrs[mi].reg.insert(key, r);
        }
        let h = self.mgrs[mi].handle.clone();
        run::no_panic("loading the server's styles", || h.unwrap_or_default().load_style_data(&data));
        run::probe("server's styles loaded");
    }
    /// Whether a place is in the document itself, neither apart nor in a shadow tree.
    fn lit(&self, i: usize) -> bool {
        let doc: Node = web_sys::sim::the_document().into();
        let mut n = self.sites[i].node.clone();
        while let Some(p) = n.parent_node() {
            n = p;
        }
        n == doc
    }
    fn build(&mut self, m: &Mg) -> Result<(StyleManager, usize), stylist::Error> {
        let mut b = StyleManager::builder().prefix(m.prefix.clone().into()).append(m.append);
        let place = m.place.map(|p| self.place(p)).unwrap_or(self.head);
        if m.place.is_some() {
            b = b.container(self.sites[place].node.clone());
        }
        b.build().map(|h| (h, place))
    }
    /// The manager of an operation: index into `mgrs`; none for the default one.
    fn mgr(&self, m: usize) -> Option<usize> {
        let live: Vec<usize> = (0..self.mgrs.len()).filter(|i| Some(*i) != self.default && self.mgrs[*i].handle.is_some()).collect();
        let k = m % (live.len() + 1);
        live.get(k).copied()
    }
    fn step(&mut self, s: &Step) {
        let fired = Rc::new(Cell::new(0u32));
        let log: Rc<RefCell<Vec<String>>> = Default::default();
        if let Some(f) = s.fault {
            let (n, fired, log) = (Cell::new(0u32), fired.clone(), log.clone());
            wasm_bindgen::sim::set_fault(Some(Rc::new(move |op, _| {
                let k = n.get();
                n.set(k + 1);
                let hit = k >= f.nth && k < f.nth.saturating_add(f.len);
                if hit {
                    fired.set(fired.get() + 1);
                    run::fault(&format!("dom.{op}"));
                    log.borrow_mut().push(op.to_string());
                }
                hit
            })));
        }
        let done = |fired: &Rc<Cell<u32>>| {
            wasm_bindgen::sim::set_fault(None);
            fired.get() > 0
        };
        match &s.op {
            Do::Manager(m) => {
                run::op(&format!("manager in {:?} append={} prefix={:?}", m.place, m.append, m.prefix));
                let r = run::no_panic("building a manager", || self.build(m));
                let failed = done(&fired);
                match r {
                    Ok((h, place)) => self.mgrs.push(Mgr { handle: Some(h), place, append: m.append, prefix: m.prefix.clone(), reg: Default::default() }),
                    Err(e) => ensure!(failed, "refused", "a manager could not be built although nothing failed: {e:?}"),
                }
            }
            Do::New { m, global, sheet, prefix } => {
                let mi = self.mgr(*m);
                let sheet = sheet % self.sheets.len();
                let text = self.sheets[sheet].text();
                let handle = mi.map(|i| self.mgrs[i].handle.clone().unwrap());
                let prefix = prefix.clone().filter(|_| !global);
                run::op(&format!("new {} of sheet {sheet} by {} prefix={prefix:?}", if *global { "global" } else { "scoped" }, mi.map(|i| i.to_string()).unwrap_or("default".into())));
                let made = run::no_panic("making a style", || {
                    Ok::<H, stylist::Error>(match (global, &handle, &prefix) {
                        (true, None, _) => H::Global(GlobalStyle::new(text.as_str())?),
                        (true, Some(h), _) => H::Global(GlobalStyle::new_with_manager(text.as_str(), h)?),
                        (false, None, None) => H::Scoped(Style::new(text.as_str())?),
                        (false, None, Some(p)) => H::Scoped(Style::create(p.clone(), text.as_str())?),
                        (false, Some(h), None) => H::Scoped(Style::new_with_manager(text.as_str(), h)?),
                        (false, Some(h), Some(p)) => H::Scoped(Style::create_with_manager(p.clone(), text.as_str(), h)?),
                    })
                });
                drop(handle);
                let failed = done(&fired);
                let h = match made {
                    Ok(h) => h,
                    Err(e) => {
                        ensure!(failed, "refused", "a style could not be made although nothing failed: {e:?}");
                        run::see("refused", &format!("{e:?}"));
                        run::probe("style refused");
                        return;
                    }
                };
                let mi = mi.unwrap_or_else(|| {
                    *self.default.get_or_insert_with(|| {
                        self.mgrs.push(Mgr { handle: None, place: self.head, append: true, prefix: "stylist".into(), reg: Default::default() });
                        self.mgrs.len() - 1
                    })
                });
                let key = (*global, prefix.unwrap_or_else(|| self.mgrs[mi].prefix.clone()), self.sheets[sheet].key());
                run::see("class", &h.class());
                match self.mgrs[mi].reg.get(&key) {
                    Some(r) => {
                        let r = *r;
                        ensure!(h.class() == self.recs[r].class, "second-style", "a style that exists as {:?} was made again as {:?}", self.recs[r].class, h.class());
                        if self.recs[r].sent.is_some() && self.recs[r].text.is_empty() {
                            self.recs[r].text = h.text();
                            self.means(r);
                            run::probe("server's style requested");
                        }
                        self.recs[r].handles += 1;
                        self.hs.push(Some((h, r)));
                    }
                    None => {
                        let r = self.recs.len();
                        let (class, text) = (h.class(), h.text());
                        ensure!(!self.recs.iter().enumerate().any(|(i, x)| self.live(i) && x.class == class), "name-reused", "a new style has the name {class:?} of another");
                        self.recs.push(Rec { class, text, sheet, global: *global, handles: 1, registered: true, mgr: mi, sent: None });
                        self.means(r);
                        self.mgrs[mi].reg.insert(key, r);
                        let s = &mut self.sites[self.mgrs[mi].place];
                        if self.mgrs[mi].append { s.kids.push(Tok::Style(r)) } else { s.kids.insert(0, Tok::Style(r)) }
                        self.hs.push(Some((h, r)));
                    }
                }
            }
            Do::Clone(k) => {
                done(&fired);
                if let Some(i) = self.pick(*k) {
                    let (h, r) = self.hs[i].as_ref().unwrap();
                    let r = *r;
                    run::op(&format!("clone {}", self.recs[r].class.len()));
                    let c = match h {
                        H::Scoped(s) => H::Scoped(s.clone()),
                        H::Global(s) => H::Global(s.clone()),
                    };
                    self.recs[r].handles += 1;
                    self.hs.push(Some((c, r)));
                }
            }
            Do::Drop(k) => {
                if let Some(i) = self.pick(*k) {
                    let (h, r) = self.hs[i].take().unwrap();
                    run::op(&format!("drop a handle of style {r}"));
                    run::no_panic("dropping a style", || drop(h));
                    self.recs[r].handles -= 1;
                    let failed = done(&fired);
                    self.settle(r, failed);
                }
                done(&fired);
            }
            Do::Unregister(k) => {
                if let Some(i) = self.pick(*k) {
                    let (h, r) = self.hs[i].as_ref().unwrap();
                    let r = *r;
                    run::op(&format!("unregister style {r}"));
                    run::no_panic("unregistering a style", || match h {
                        H::Scoped(s) => s.unregister(),
                        H::Global(s) => s.unregister(),
                    });
                    self.recs[r].registered = false;
                    self.mgrs.iter_mut().for_each(|m| m.reg.retain(|_, x| *x != r));
                }
                done(&fired);
            }
            Do::DropManager(m) => {
                if let Some(i) = self.mgr(*m) {
                    run::op(&format!("drop manager {i}"));
                    let h = self.mgrs[i].handle.take();
                    run::no_panic("dropping a manager", || drop(h));
                    let failed = done(&fired);
                    let reg = std::mem::take(&mut self.mgrs[i].reg);
                    for r in reg.into_values() {
                        self.recs[r].registered = false;
                        self.settle(r, failed);
                    }
                }
                done(&fired);
            }
            Do::Foreign { place, what, at } => {
                done(&fired);
                let i = self.place(*place);
                run::op(&format!("another script adds {what} to place {i} at {at}"));
                let doc = web_sys::sim::the_document();
                self.foreign += 1;
                let el = |name: &str, id: Option<&str>, text: &str| -> Node {
                    let e = doc.create_element(name).unwrap();
                    if let Some(id) = id {
                        e.set_attribute("data-style", id).unwrap();
                    }
                    e.set_text_content(Some(text));
                    e.into()
                };
                let some = self.recs.iter().rev().find(|r| r.sent.is_none() && (r.handles > 0 || r.registered)).map(|r| (r.class.clone(), r.text.clone()));
                let n: Node = match (what, &some) {
                    (0, _) => doc.create_text_node("text").into(),
                    (1, _) => doc.create_comment("a comment").into(),
                    (2, _) => el("style", None, ".x { color: red; }"),
                    // Copies of what stylist made, as a script that clones a part of the page makes them.
                    (3, Some((c, t))) => el("style", Some(c), t),
                    (4, Some((c, _))) => el("div", Some(c), "not a style"),
                    (5, Some((c, _))) => {
                        let d = el("section", None, "");
                        d.append_child(&el("style", Some(c), ".copy { color: red; }")).unwrap();
                        d
                    }
                    _ => el("style", Some("stylist-0"), ""),
                };
                let s = &mut self.sites[i];
                let k = match at {
                    0 => 0,
                    1 => s.kids.len() / 2,
                    _ => s.kids.len(),
                };
                // Where a removal failed, one cannot tell the positions apart.
                let k = if s.kids.iter().any(|t| matches!(t, Tok::Maybe(_))) { 0 } else { k };
                let before = web_sys::sim::kids(&s.node).get(k).cloned();
                s.node.insert_before(&n, before.as_ref()).unwrap();
                let html = text_of(&n);
                s.kids.insert(k, Tok::Foreign(n, html));
            }
            Do::Take { place, k, to } => {
                done(&fired);
                let i = self.place(*place);
                let kids = web_sys::sim::kids(&self.sites[i].node);
                if kids.is_empty() || self.sites.iter().any(|s| s.kids.iter().any(|t| matches!(t, Tok::Maybe(_)))) {
                    return;
                }
                let k = k % kids.len();
                if matches!(&self.sites[i].kids[k], Tok::Foreign(_, html) if html.is_empty()) {
                    return;
                }
                let t = self.sites[i].kids.remove(k);
                match to {
                    Some(p) => {
                        let j = self.place(*p);
                        run::op(&format!("another script moves child {k} of place {i} to place {j}"));
                        run::fault("script.moves-node");
                        self.sites[j].node.append_child(&kids[k]).unwrap();
                        self.sites[j].kids.push(t);
                    }
                    None => {
                        run::op(&format!("another script removes child {k} of place {i}"));
                        run::fault("script.removes-node");
                        self.sites[i].node.remove_child(&kids[k]).unwrap();
                    }
                }
            }
            Do::Load { m, place, rng, styles } => {
                done(&fired);
                self.load(*m, *place, *rng, styles);
            }
            Do::Attach { place } => {
                done(&fired);
                let i = self.place(*place);
                let Some((n, home)) = self.sites[i].hung.clone() else { return };
                let home_site = self.sites.iter().position(|s| s.node == home);
                match n.parent_node() {
                    Some(_) => {
                        run::op(&format!("another script takes place {i} out of the document"));
                        run::fault("script.detaches-container");
                        home.remove_child(&n).unwrap();
                        if let Some(h) = home_site {
                            self.sites[h].kids.retain(|t| !matches!(t, Tok::Foreign(x, _) if *x == n));
                        }
                    }
                    None => {
                        run::op(&format!("another script puts place {i} into the document"));
                        run::fault("script.attaches-container");
                        home.append_child(&n).unwrap();
                        if let Some(h) = home_site {
                            self.sites[h].kids.push(Tok::Foreign(n, String::new()));
                        }
                    }
                }
            }
        }
        if fired.get() > 0 {
            run::probe("operation with a failing browser");
        }
        let l = log.borrow().join(",");
        if !l.is_empty() {
            run::see("failed", &l);
        }
    }
    fn pick(&self, k: usize) -> Option<usize> {
        let v: Vec<usize> = (0..self.hs.len()).filter(|i| self.hs[*i].is_some()).collect();
        (!v.is_empty()).then(|| v[k % v.len()])
    }
}
fn exec(v: Value) {
    let p: Plan = plan(v);
    if p.places.is_empty() || p.sheets.is_empty() {
        run::violate("invalid-plan", "empty".into());
    }
    let mut w = World::new(&p);
    w.check("at the start");
    for (i, s) in p.steps.iter().enumerate() {
        w.step(s);
        w.check(&format!("after step {i}"));
    }
    // The document works again: every live style can be had again, and is there once.
    let again: Vec<Step> = w
        .recs
        .iter()
        .enumerate()
        .filter(|(i, r)| w.live(*i) && r.registered)
        .filter_map(|(_, r)| {
            let live: Vec<usize> = (0..w.mgrs.len()).filter(|i| Some(*i) != w.default && w.mgrs[*i].handle.is_some()).collect();
            let m = if Some(r.mgr) == w.default { live.len() } else { live.iter().position(|x| *x == r.mgr)? };
            Some(Step { op: Do::New { m, global: r.global, sheet: r.sheet, prefix: None }, fault: None })
        })
        .collect();
    for s in &again {
        w.step(s);
        w.check("asking for a style again at the end");
    }
    // Everything goes away.
    while let Some(i) = w.pick(0) {
        let mut s = Step { op: Do::Unregister(0), fault: None };
        w.step(&s);
        s.op = Do::Drop(0);
        let _ = i;
        w.step(&s);
        w.check("while dropping everything");
    }
    while w.mgr(0).is_some() {
        w.step(&Step { op: Do::DropManager(0), fault: None });
        w.check("while dropping the managers");
    }
    let left = w.recs.iter().enumerate().filter(|(i, r)| w.live(*i) && Some(r.mgr) != w.default).count();
    ensure!(left == 0, "harness", "{left} styles left over");
    run::see("end", &format!("{} styles", w.recs.len()));
}
fn draw5(r: &mut Rng, t: bool) -> Value {
    draw_with(r, t, false)
}
fn draw6(r: &mut Rng, t: bool) -> Value {
    draw_with(r, t, true)
}
pub const C05: Scenario = Scenario {
    id: "C05",
    draw: draw5,
    exec,
    quick_runs: 20000,
    rule: "distinct histories of style, manager and foreign-script operations over at least one container (hash of the operations in order)",
};
pub const C06: Scenario = Scenario {
    id: "C06",
    draw: draw6,
    exec,
    quick_runs: 20000,
    rule: "distinct histories with at least one injected browser failure (hash of the operations and failures in order)",
};
