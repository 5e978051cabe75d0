//! A Yew application of styled components, driven by a seeded sequence of edits of its tree, local
//! state changes, resumed suspensions, media changes and host tasks; C16, C17 and C18 use it.
use super::*;
use crate::css::{self, Inner, Item, Model};
use crate::ensure;
use crate::run;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use stylist::manager::StyleManager;
use stylist::yew::{styled_component, styled_component_impl, use_media_query, use_prepared_media_query, use_style, Global, ManagerProvider};
use stylist::{Style, StyleSource};
use wasm_bindgen::JsCast;
use web_sys::{Element, HtmlElement, Node as Dom, ShadowRootInit, ShadowRootMode};
use yew::prelude::*;
use yew::suspense::{Suspension, SuspensionHandle};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum Kind {
    Text(String),
    El,
    /// A component with a style of its own.
    Styled { how: u8, s: usize, v: u8 },
    Global { how: u8, s: usize, v: u8 },
    Provider { m: usize },
    /// A component that shows one style after the other, by its own state; also a global one.
    Flip { styles: Vec<usize>, global: bool },
    Suspense,
    /// Suspends so many times before it renders.
    Waits { times: u8, before: bool, s: usize },
    Media { q: u8, prepared: bool, fallback: bool },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct N {
    pub kind: Kind,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub kids: Vec<N>,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub key: u64,
}
fn is_zero(x: &u64) -> bool {
    *x == 0
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Mg {
    pub prefix: String,
    pub append: bool,
    /// 0: the head (default), 1: an element, 2: a shadow root.
    pub place: u8,
}
#[derive(Serialize, Deserialize, Clone)]
#[serde(rename_all = "lowercase")]
pub enum Edit {
    Kind(N),
    Insert(N, usize),
    Remove,
    Move(usize, usize),
    Swap(usize, usize),
    Style(usize, u8),
    Copy,
    Query(u8),
}
#[derive(Serialize, Deserialize, Clone)]
#[serde(rename_all = "lowercase")]
pub enum Do {
    Edit { at: usize, edit: Edit },
    /// The whole application renders again, with an equal tree.
    Rerender,
    Poke(usize),
    Resume(usize),
    /// The environment changes; it is reported when the browser next renders.
    Env { width: u32, dark: bool, print: bool },
    /// The application replaces a manager with an equal one.
    Renew(usize),
    /// The browser renders: media changes are reported.
    Frame,
    /// A waiting task of the host runs (a fetch is done, a timer fires).
    Task(usize),
    /// Everything pending happens; then the page is checked.
    Settle,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Step {
    pub op: Do,
    /// In the same task as the next one: no microtasks in between.
    #[serde(default)]
    pub joined: bool,
}
pub const QUERIES: &[&str] = &[
    "(min-width: 600px)",
    "(max-width: 599px)",
    "screen and (min-width: 900px)",
    "(prefers-color-scheme: dark)",
    "print",
    "not all and (min-width: 600px)",
    "(prefers-color-scheme: dark), (max-width: 300px)",
    "(no-such-feature: 1)",
];
pub const HOWS: u8 = 12;
const VALS: &[&str] = &["red", "#FFF", "\"a & b\"", "var(--x)"];

// ---- drawing ----
pub struct Draw<'a> {
    pub r: &'a mut Rng,
    pub sheets: usize,
    pub mgrs: usize,
    pub wait: bool,
    pub media: u32,
    pub prepared_only: bool,
    /// Styles of the thread's own manager can be used as well.
    pub own: bool,
}
impl Draw<'_> {
    pub fn kids(&mut self, depth: usize, n: usize) -> Vec<N> {
        (0..self.r.range(0, n)).map(|_| self.node(depth)).collect()
    }
    fn how(&mut self) -> u8 {
        loop {
            let h = self.r.below(HOWS as usize) as u8;
            if self.own || !matches!(h, 7 | 8) {
                return h;
            }
        }
    }
    fn media(&mut self) -> Kind {
        Kind::Media { q: self.r.below(QUERIES.len()) as u8, prepared: self.prepared_only || self.r.chance(1, 2), fallback: self.r.chance(1, 2) }
    }
    pub fn kind(&mut self, leaf: bool) -> Kind {
        let s = self.r.below(self.sheets);
        let v = self.r.below(VALS.len()) as u8;
        if self.media > 0 && self.r.chance(self.media, 10) {
            return self.media();
        }
        match self.r.below(if leaf { 12 } else { 20 }) {
            0 => Kind::Text(self.r.pick(&["x", "a < b & c"]).to_string()),
            1..=3 => Kind::Global { how: self.r.below(4) as u8, s, v },
            4 | 5 => Kind::Flip { styles: (0..self.r.range(1, 3)).map(|_| self.r.below(self.sheets)).collect(), global: self.r.chance(1, 2) },
            6..=11 => Kind::Styled { how: self.how(), s, v },
            12 | 13 => Kind::El,
            14..=16 => Kind::Provider { m: self.r.below(self.mgrs) },
            17 if self.wait => Kind::Suspense,
            18 if self.wait => Kind::Waits { times: *self.r.pick(&[1, 1, 2]), before: self.r.chance(1, 2), s },
            _ => Kind::Styled { how: self.how(), s, v },
        }
    }
    pub fn node(&mut self, depth: usize) -> N {
        let kind = self.kind(depth == 0);
        let kids = match kind {
            Kind::Text(_) | Kind::Global { .. } | Kind::Media { .. } => vec![],
            _ if depth == 0 => vec![],
            _ => self.kids(depth - 1, 3),
        };
        N { kind, kids, key: 0 }
    }
    pub fn steps(&mut self, n: usize, edits: u32) -> Vec<Step> {
        (0..n)
            .map(|_| {
                let op = if self.r.chance(edits, 10) {
                    let at = self.r.below(40);
                    let edit = match self.r.below(15) {
                        0 | 1 => {
                            let kind = self.kind(false);
                            Edit::Kind(N { kind, kids: vec![], key: 0 })
                        }
                        2..=4 => Edit::Insert(self.node(2), self.r.below(4)),
                        5..=7 => Edit::Remove,
                        8 => Edit::Move(self.r.below(40), self.r.below(4)),
                        9 => Edit::Swap(self.r.below(4), self.r.below(4)),
                        10..=12 => Edit::Style(self.r.below(8), self.r.below(VALS.len()) as u8),
                        13 => Edit::Copy,
                        _ => Edit::Query(self.r.below(QUERIES.len()) as u8),
                    };
                    Do::Edit { at, edit }
                } else {
                    match self.r.below(if self.media > 0 { 16 } else { 10 }) {
                        0 if self.r.chance(1, 3) => Do::Renew(self.r.below(8)),
                        0 => Do::Rerender,
                        1..=4 => Do::Poke(self.r.below(16)),
                        5 | 6 => Do::Resume(self.r.below(8)),
                        7 => Do::Task(self.r.below(4)),
                        8 => Do::Settle,
                        9 | 10 => Do::Frame,
                        _ => Do::Env { width: *self.r.pick(&[200, 599, 600, 950]), dark: self.r.chance(1, 2), print: self.r.chance(1, 5) },
                    }
                };
                Step { op, joined: self.r.chance(1, 4) }
            })
            .collect()
    }
}

// ---- what the components share ----
/// What a mounted component instance shows, as of its last render.
#[derive(Clone, Debug, Default)]
pub struct Probe {
    /// The manager that its providers give it.
    pub mgr: Option<usize>,
    pub scoped: Vec<(String, Model)>,
    pub global: Option<Model>,
    pub media: Option<(String, bool)>,
    /// Every value of the media query that a render has seen.
    pub seen: Vec<bool>,
    pub key: u64,
}
#[derive(Default)]
pub struct Shared {
    pub tree: RefCell<Vec<N>>,
    pub update: RefCell<Option<UseForceUpdateHandle>>,
    pub probes: RefCell<BTreeMap<u64, Probe>>,
    pub next: Cell<u64>,
    pub pokes: RefCell<BTreeMap<u64, UseStateHandle<usize>>>,
    pub sheets: RefCell<Vec<Model>>,
    /// The manager of each slot, and how often it has been replaced: a manager is known as
    /// `slot + slots * replaced`.
    pub mgrs: RefCell<Vec<StyleManager>>,
    pub renewed: RefCell<Vec<usize>>,
    pub waiting: RefCell<Vec<SuspensionHandle>>,
    /// Like `probes`, of all that have ever been.
    pub shown: RefCell<BTreeMap<u64, Probe>>,
    pub keyed: Cell<bool>,
}
thread_local! { static APP: Shared = Shared::default(); }
pub fn app<T>(f: impl FnOnce(&Shared) -> T) -> T {
    APP.with(f)
}
fn sheet(s: usize) -> Model {
    app(|a| {
        let v = a.sheets.borrow();
        v[s % v.len()].clone()
    })
}
struct Inst(u64);
impl Drop for Inst {
    fn drop(&mut self) {
        let _ = APP.try_with(|a| {
            a.probes.borrow_mut().remove(&self.0);
            a.pokes.borrow_mut().remove(&self.0);
        });
    }
}
#[derive(Clone, PartialEq)]
struct Below(usize);
/// Registers the component instance and returns its number.
#[hook]
fn use_probe(p: &P) -> u64 {
    let below = use_context::<Below>().map(|b| b.0);
    let i = use_memo((), |_| {
        app(|a| {
            a.next.set(a.next.get() + 1);
            Inst(a.next.get())
        })
    });
    app(|a| {
        let mut v = a.probes.borrow_mut();
        let e = v.entry(i.0).or_default();
        e.mgr = below;
        e.scoped.clear();
        e.global = None;
        e.key = p.n.key;
    });
    i.0
}
fn show(i: u64, f: impl FnOnce(&mut Probe)) {
    app(|a| {
        let mut v = a.probes.borrow_mut();
        let p = v.get_mut(&i).unwrap();
        f(p);
        a.shown.borrow_mut().insert(i, p.clone());
    })
}

// ---- components ----
#[derive(Properties, PartialEq, Clone)]
pub struct P {
    pub n: Rc<N>,
    #[prop_or_default]
    pub children: Html,
}
impl P {
    fn model(&self) -> Model {
        match &self.n.kind {
            Kind::Styled { s, .. } | Kind::Global { s, .. } | Kind::Waits { s, .. } => sheet(*s),
            k => panic!("{k:?}"),
        }
    }
    fn text(&self) -> String {
        self.model().text()
    }
    fn val(&self) -> &'static str {
        match &self.n.kind {
            Kind::Styled { v, .. } | Kind::Global { v, .. } => VALS[*v as usize % VALS.len()],
            k => panic!("{k:?}"),
        }
    }
}
fn decl(a: &str, b: &str) -> Item {
    Item::Decl(a.into(), b.into())
}
fn block(s: &str, a: &str, b: &str) -> Item {
    Item::Block { sels: vec![s.into()], body: vec![Inner::Decl(a.into(), b.into())] }
}
fn model(items: Vec<Item>) -> Model {
    Model { items, noise: 0 }
}
macro_rules! shell {
    ($i:expr, $p:expr, $c:expr) => {
        html! { <div data-k={$i.to_string()} data-n={$p.n.key.to_string()} class={$c}>{$p.children.clone()}</div> }
    };
}
#[component]
fn UseText(p: &P) -> Html {
    let i = use_probe(p);
    let text = p.text();
    let s = use_style(text.as_str());
    show(i, |x| x.scoped.push((s.get_class_name().into(), p.model())));
    shell!(i, p, s)
}
#[component]
fn UseSheet(p: &P) -> Html {
    let i = use_probe(p);
    let sheet: stylist::ast::Sheet = p.text().parse().unwrap();
    let s = use_style(sheet);
    show(i, |x| x.scoped.push((s.get_class_name().into(), p.model())));
    shell!(i, p, classes!("own", s))
}
#[component]
fn UseSource(p: &P) -> Html {
    let i = use_probe(p);
    let src: StyleSource = p.text().parse().unwrap();
    let s = use_style(src);
    show(i, |x| x.scoped.push((s.get_class_name().into(), p.model())));
    shell!(i, p, s.get_class_name().to_string())
}
#[component]
fn UseLiteral(p: &P) -> Html {
    let i = use_probe(p);
    let s = stylist::yew::use_style!("color: ${v}; &:hover { margin: 3px; }", v = p.val());
    show(i, |x| x.scoped.push((s.get_class_name().into(), model(vec![decl("color", p.val()), block("&:hover", "margin", "3px")]))));
    shell!(i, p, s)
}
#[component]
fn UseInline(p: &P) -> Html {
    let i = use_probe(p);
    let v = p.val();
    let s = stylist::yew::use_style!(background-color: ${v}; .k { color: ${v}; });
    show(i, |x| x.scoped.push((s.get_class_name().into(), model(vec![decl("background-color", v), block(".k", "color", v)]))));
    shell!(i, p, s)
}
/// The macros make classes, not styles: which class is only known from the element.
fn later(i: u64, p: &P, m: Vec<Model>) {
    let _ = p;
    show(i, |x| x.scoped = m.into_iter().map(|m| (String::new(), m)).collect());
}
#[styled_component]
fn StyledLiteral(p: &P) -> Html {
    let i = use_probe(p);
    later(i, p, vec![model(vec![decl("--c", p.val())])]);
    shell!(i, p, css!("--c: ${v};", v = p.val()))
}
#[styled_component(StyledTwo)]
fn styled_two(p: &P) -> Html {
    let i = use_probe(p);
    let v = p.val();
    later(i, p, vec![model(vec![decl("border-color", v)]), model(vec![decl("width", "1px"), block("p", "content", v)])]);
    shell!(i, p, classes!(css!(border-color: ${v};), "own", css!("width: 1px; p { content: ${v}; }", v = v)))
}
#[styled_component_impl]
#[component]
fn StyledImpl(p: &P) -> Html {
    let i = use_probe(p);
    later(i, p, vec![model(vec![decl("content", p.val()), decl("content", "none")])]);
    shell!(i, p, css!(content: ${p.val()}; content: none;))
}
/// Not aware of the provider: the macro and the constructor use the thread's own manager.
#[component]
fn PlainMacro(p: &P) -> Html {
    let i = use_probe(p);
    later(i, p, vec![model(vec![decl("--plain", p.val())])]);
    show(i, |x| x.mgr = None);
    shell!(i, p, stylist::css!("--plain: ${v};", v = p.val()))
}
#[component]
fn PlainStyle(p: &P) -> Html {
    let i = use_probe(p);
    let s = Style::new(p.text()).unwrap();
    show(i, |x| {
        x.mgr = None;
        x.scoped.push((s.get_class_name().into(), p.model()))
    });
    shell!(i, p, s)
}
#[styled_component_impl]
#[hook]
fn use_hooked(v: &str) -> Classes {
    css!("--hook: ${v};", v = v).into()
}
#[component]
fn UseHooked(p: &P) -> Html {
    let i = use_probe(p);
    later(i, p, vec![model(vec![decl("--hook", p.val())])]);
    let c = use_hooked(p.val());
    shell!(i, p, c)
}
/// Keeps its style in a memo, made once per manager and text.
#[component]
fn Memoized(p: &P) -> Html {
    let i = use_probe(p);
    let mgr = use_context::<StyleManager>().unwrap_or_default();
    let s = use_memo((mgr, p.text()), |(m, t)| Style::new_with_manager(t.as_str(), m).unwrap());
    show(i, |x| x.scoped.push((s.get_class_name().into(), p.model())));
    shell!(i, p, (*s).clone())
}
#[component]
fn Flip(p: &P) -> Html {
    let i = use_probe(p);
    let Kind::Flip { styles, global } = &p.n.kind else { panic!() };
    let st = use_state(|| 0usize);
    let m = sheet(styles[*st % styles.len().max(1)]);
    let s = use_style(m.text().as_str());
    show(i, |x| {
        x.scoped.push((s.get_class_name().into(), m.clone()));
        if *global {
            x.global = Some(m.clone());
        }
    });
    app(|a| a.pokes.borrow_mut().insert(i, st.clone()));
    let onclick = Callback::from(move |e: MouseEvent| {
        e.stop_propagation();
        st.set(*st + 1);
    });
    let g = if *global { html! { <p><Global css={m.text()} /></p> } } else { Html::default() };
    html! { <div data-k={i.to_string()} data-n={p.n.key.to_string()} class={s} {onclick}>{g}{p.children.clone()}</div> }
}
#[component]
fn Globally(p: &P) -> Html {
    let i = use_probe(p);
    let Kind::Global { how, .. } = &p.n.kind else { panic!() };
    let v = p.val();
    let m = if how % 4 < 3 { p.model() } else { model(vec![decl("--g", v), block("body", "color", v)]) };
    show(i, |x| x.global = Some(m));
    match how % 4 {
        0 => html! { <Global css={p.text()} /> },
        1 => html! { <Global css={p.text().as_str()} /> },
        2 => html! { <Global css={p.text().parse::<stylist::ast::Sheet>().unwrap()} /> },
        _ => html! { <Global css={stylist::css!("--g: ${v}; body { color: ${v}; }", v = v)} /> },
    }
}
#[component]
fn Waiting(p: &P) -> HtmlResult {
    let i = use_probe(p);
    let Kind::Waits { times, before, .. } = &p.n.kind else { panic!() };
    let mgr = use_context::<StyleManager>().unwrap_or_default();
    let text = p.text();
    let make = || Style::new_with_manager(text.as_str(), &mgr).unwrap();
    let early = before.then(make);
    // What a component waits for is not part of it: it starts anew with every instance.
    let left = use_memo((), |_| Cell::new(*times));
    if left.get() > 0 {
        left.set(left.get() - 1);
        let (s, h) = Suspension::new();
        app(|a| a.waiting.borrow_mut().push(h));
        return Err(s.into());
    }
    let s = early.unwrap_or_else(make);
    show(i, |x| x.scoped.push((s.get_class_name().into(), p.model())));
    Ok(shell!(i, p, s))
}
fn media_of(p: &P) -> (String, bool) {
    let Kind::Media { q, fallback, .. } = &p.n.kind else { panic!() };
    (QUERIES[*q as usize % QUERIES.len()].to_string(), *fallback)
}
#[component]
fn MediaPlain(p: &P) -> Html {
    let i = use_probe(p);
    let (q, _) = media_of(p);
    let v = use_media_query(&q);
    show(i, |x| {
        x.media = Some((q.clone(), v));
        x.seen.push(v)
    });
    html! { <b data-k={i.to_string()} data-q={q}>{v.to_string()}</b> }
}
#[component]
fn MediaPrepared(p: &P) -> HtmlResult {
    let i = use_probe(p);
    let (q, f) = media_of(p);
    let v = use_prepared_media_query(&q, f)?;
    if wasm_bindgen::sim::server() {
        ensure!(v == f, "fallback", "component {} has {v} for {q:?} on the server, its fallback is {f}", p.n.key);
    }
    show(i, |x| {
        x.media = Some((q.clone(), v));
        x.seen.push(v)
    });
    Ok(html! { <b data-k={i.to_string()} data-q={q}>{v.to_string()}</b> })
}
#[derive(Properties, PartialEq, Clone)]
pub struct AppProps {}
#[component]
pub fn App(_p: &AppProps) -> Html {
    let u = use_force_update();
    app(|a| *a.update.borrow_mut() = Some(u));
    let tree = app(|a| a.tree.borrow().clone());
    // Something has to be there to wait in.
    html! { <main><Suspense fallback={html! { <i>{"top"}</i> }}>{kids(&tree)}</Suspense></main> }
}
fn kids(v: &[N]) -> Html {
    v.iter().map(html_of).collect()
}
/// Everything has an element of its own: Yew 0.22 loses its place among siblings when components
/// that show no element of their own (as `Global`) are followed by one that is replaced.
fn html_of(n: &N) -> Html {
    let k = kids(&n.kids);
    let n = Rc::new(N { kids: vec![], ..n.clone() });
    macro_rules! comp {
        ($c:ident) => {
            html! { <$c n={n.clone()}>{k}</$c> }
        };
    }
    let inner = match &n.kind {
        Kind::Text(t) => html! { t },
        Kind::El => k,
        Kind::Suspense => html! { <Suspense fallback={html! { <i>{"fallback"}</i> }}>{k}</Suspense> },
        Kind::Provider { m } => {
            let (m, mgr) = app(|a| {
                let v = a.mgrs.borrow();
                let m = m % v.len();
                let k = a.renewed.borrow().get(m).copied().unwrap_or(0);
                (m + v.len() * k, v[m].clone())
            });
            html! { <ManagerProvider manager={mgr}><ContextProvider<Below> context={Below(m)}>{k}</ContextProvider<Below>></ManagerProvider> }
        }
        Kind::Global { .. } => comp!(Globally),
        Kind::Flip { .. } => comp!(Flip),
        Kind::Waits { .. } => comp!(Waiting),
        Kind::Media { prepared: true, .. } => comp!(MediaPrepared),
        Kind::Media { .. } => comp!(MediaPlain),
        Kind::Styled { how, .. } => match how % HOWS {
            0 => comp!(UseText),
            1 => comp!(UseSheet),
            2 => comp!(UseLiteral),
            3 => comp!(UseInline),
            4 => comp!(StyledLiteral),
            5 => comp!(StyledTwo),
            6 => comp!(StyledImpl),
            7 => comp!(PlainMacro),
            8 => comp!(PlainStyle),
            9 => comp!(UseSource),
            10 => comp!(UseHooked),
            _ => comp!(Memoized),
        },
    };
    match app(|a| a.keyed.get()) {
        true => html! { <section key={n.key}>{inner}</section> },
        false => html! { <section>{inner}</section> },
    }
}

// ---- editing the tree ----
fn number(n: &mut N, next: &mut u64) {
    *next += 1;
    n.key = *next;
    n.kids.iter_mut().for_each(|k| number(k, next));
}
pub fn set_tree(mut t: Vec<N>) -> u64 {
    let mut next = 0;
    t.iter_mut().for_each(|n| number(n, &mut next));
    app(|a| *a.tree.borrow_mut() = t);
    next
}
pub fn size(t: &[N]) -> usize {
    t.iter().map(|n| 1 + size(&n.kids)).sum()
}
/// The list that holds the k-th node (in preorder), and its place there.
fn find(t: &mut Vec<N>, k: &mut usize) -> Option<(*mut Vec<N>, usize)> {
    for i in 0..t.len() {
        if *k == 0 {
            return Some((t as *mut _, i));
        }
        *k -= 1;
        if let Some(x) = find(&mut t[i].kids, k) {
            return Some(x);
        }
    }
    None
}
fn leaf(k: &Kind) -> bool {
    matches!(k, Kind::Text(_) | Kind::Global { .. } | Kind::Media { .. })
}
pub fn edit(at: usize, e: &Edit, next: &mut u64) -> bool {
    app(|a| {
        let mut tree = a.tree.borrow_mut();
        let n = size(&tree);
        if n == 0 {
            if let Edit::Insert(x, _) = e {
                let mut x = x.clone();
                number(&mut x, next);
                tree.push(x);
                return true;
            }
            return false;
        }
        let root: *mut Vec<N> = &mut *tree;
        let (list, i) = find(&mut tree, &mut (at % n)).unwrap();
        // One node at a time is looked at, and the tree is not used otherwise.
        let list = unsafe { &mut *list };
        match e {
            Edit::Kind(x) => {
                list[i].kind = x.kind.clone();
                if leaf(&x.kind) {
                    list[i].kids.clear();
                }
            }
            Edit::Insert(x, p) => {
                if n > 60 {
                    return false;
                }
                let mut x = x.clone();
                number(&mut x, next);
                if leaf(&list[i].kind) {
                    list.insert(i, x);
                } else {
                    let k = &mut list[i].kids;
                    k.insert(p % (k.len() + 1), x);
                }
            }
            Edit::Remove => {
                list.remove(i);
            }
            Edit::Move(to, p) => {
                let x = list.remove(i);
                let root = unsafe { &mut *root };
                let n = size(root);
                if n == 0 {
                    root.push(x);
                } else {
                    let (list, j) = find(root, &mut (to % n)).unwrap();
                    let list = unsafe { &mut *list };
                    if leaf(&list[j].kind) {
                        list.insert(j, x);
                    } else {
                        let k = &mut list[j].kids;
                        k.insert(p % (k.len() + 1), x);
                    }
                }
            }
            Edit::Swap(p, q) => {
                let k = list.len();
                list.swap(p % k, q % k);
            }
            Edit::Style(x, y) => match &mut list[i].kind {
                Kind::Styled { s, v, .. } | Kind::Global { s, v, .. } => {
                    *s = *x;
                    *v = *y;
                }
                Kind::Waits { s, .. } => *s = *x,
                Kind::Provider { m } => *m = *x,
                Kind::Flip { styles, .. } => {
                    if !styles.is_empty() {
                        let k = x % styles.len();
                        styles[k] = x / 2;
                    }
                }
                Kind::Media { q, .. } => *q = *x as u8,
                _ => return false,
            },
            Edit::Copy => {
                if n > 60 {
                    return false;
                }
                let mut x = list[i].clone();
                number(&mut x, next);
                list.insert(i, x);
            }
            Edit::Query(x) => match &mut list[i].kind {
                Kind::Media { q, .. } => *q = *x,
                _ => return false,
            },
        }
        true
    })
}

// ---- the page ----
/// Whether a style element says something else than it should (markup of servers escapes strings).
fn differs(text: &str, want: &[css::Fact]) -> Option<String> {
    let d = css::diff(text, want)?;
    let plain = |f: &[css::Fact]| {
        let u = |s: &String| css::norm(&crate::markup::unescape(s));
        f.iter().map(|f| css::Fact { path: f.path.iter().map(u).collect(), decl: f.decl.as_ref().map(|(k, v)| (u(k), u(v))) }).collect::<Vec<_>>()
    };
    match css::read(text) {
        Ok(got) if plain(&got) == plain(want) => None,
        _ => Some(d),
    }
}
pub struct Page {
    pub root: Element,
    pub mgrs: Vec<Mg>,
    /// Container of each manager, and of the thread's own at the end.
    pub homes: Vec<Dom>,
    /// Every scoped class that was ever seen, with where it belongs and what it should say.
    pub known: BTreeMap<String, (Option<usize>, Model)>,
    /// Style elements that came with the page, by id.
    pub given: BTreeMap<String, Dom>,
    pub given_home: Dom,
    pub next_key: u64,
    pub alerts: Rc<RefCell<Vec<String>>>,
    pub served: Option<Served>,
    /// Nothing has happened yet that changes what the server rendered.
    pub quiet: bool,
    /// All that the server rendered has been hydrated.
    pub full: bool,
}
/// What a server sent, and what it showed.
#[derive(Serialize, Deserialize, Clone, Default)]
pub struct Served {
    pub html: String,
    pub markup: String,
    /// Classes of the elements, by the key of their node.
    pub classes: BTreeMap<u64, String>,
    /// Global styles it showed, by the key of the node.
    pub globals: BTreeMap<u64, Model>,
    pub media: BTreeMap<u64, bool>,
}
/// Another process renders the tree.
#[cfg(feature = "hydrate")]
pub fn serve(mgrs: &[Mg], env: u64, drive: u64) -> Served {
    use std::future::Future;
    use std::task::{Context, Poll, Waker};
    let end = run::node("server", env, || {
        seed_rng(env);
        wasm_bindgen::sim::set_server(true);
        wasm_bindgen::sim::set_fault(Some(Rc::new(|op, _| op == "window")));
        // Components are numbered apart from those of the browser.
        app(|a| a.next.set(1_000_000));
        let mut r = Rng::new(drive);
        let (ms, readers): (Vec<_>, Vec<_>) = mgrs
            .iter()
            .map(|m| {
                let (w, rd) = stylist::manager::render_static();
                let doc = web_sys::sim::the_document();
                (StyleManager::builder().prefix(m.prefix.clone().into()).writer(w).container(doc.into()).build().unwrap(), rd)
            })
            .unzip();
        app(|a| *a.mgrs.borrow_mut() = ms);
        run::op("serve");
        let html = {
            let mut f = std::pin::pin!(yew::LocalServerRenderer::<App>::with_props(AppProps {}).hydratable(true).render());
            let mut n = 0;
            loop {
                n += 1;
                ensure!(n < 10_000, "never-settles", "the server never finishes");
                if let Poll::Ready(x) = run::no_panic("rendering on the server", || f.as_mut().poll(&mut Context::from_waker(Waker::noop()))) {
                    break x;
                }
                if run::no_panic("rendering on the server", wasm_bindgen::sim::run_microtasks) > 0 {
                    continue;
                }
                let h = app(|a| {
                    let mut w = a.waiting.borrow_mut();
                    let n = w.len();
                    (n > 0).then(|| w.remove(r.below(n)))
                });
                if let Some(h) = h {
                    run::fault("suspension.resumed");
                    run::op("resume");
                    run::no_panic("resuming", || h.resume());
                }
            }
        };
        let markup: String = readers
            .into_iter()
            .map(|rd| {
                let d = rd.read_style_data();
                let mut s = String::new();
                d.write_static_markup(&mut s).unwrap();
                s
            })
            .collect();
        let mut out = Served { html, markup, ..Default::default() };
        app(|a| {
            let last = a.shown.borrow();
            for p in last.values() {
                if let Some(m) = &p.global {
                    out.globals.insert(p.key, m.clone());
                }
                if let Some((_, v)) = &p.media {
                    out.media.insert(p.key, *v);
                }
            }
        });
        serde_json::to_value(out).unwrap()
    });
    let run::NodeEnd::Value(v) = end else { run::violate("harness", "the server ended early".into()) };
    let mut s: Served = serde_json::from_value(v).unwrap();
    // What the browser makes of it.
    let e = web_sys::sim::the_document().create_element("div").unwrap();
    web_sys::sim::fill(e.as_ref(), &s.html);
    each(&e, &mut |e| {
        if let Some(k) = e.get_attribute("data-n") {
            s.classes.insert(k.parse().unwrap(), e.get_attribute("class").unwrap_or_default());
        }
    });
    s
}
fn each(e: &Element, f: &mut dyn FnMut(&Element)) {
    f(e);
    for k in web_sys::sim::kids(e.as_ref()) {
        if let Some(k) = k.dyn_ref::<Element>() {
            each(k, f);
        }
    }
}
fn build_manager(m: &Mg, home: Option<&Dom>) -> (StyleManager, Dom) {
    let doc = web_sys::sim::the_document();
    let mut b = StyleManager::builder().prefix(m.prefix.clone().into()).append(m.append);
    let home: Dom = match home {
        Some(h) => h.clone(),
        None if m.place == 0 => doc.head().unwrap().into(),
        None => {
            let d = doc.create_element("div").unwrap();
            doc.body().unwrap().append_child(&d).unwrap();
            match m.place {
                1 => d.into(),
                _ => d.attach_shadow(&ShadowRootInit::new(ShadowRootMode::Open)).unwrap().into(),
            }
        }
    };
    if m.place > 0 {
        b = b.container(home.clone());
    }
    let mgr = run::no_panic("building a manager", || b.build()).unwrap_or_else(|e| run::violate("refused", format!("a manager could not be built: {e:?}")));
    (mgr, home)
}
pub fn build_managers(mgrs: &[Mg]) -> Vec<Dom> {
    let (v, mut homes): (Vec<_>, Vec<_>) = mgrs.iter().map(|m| build_manager(m, None)).unzip();
    app(|a| {
        *a.renewed.borrow_mut() = vec![0; v.len()];
        *a.mgrs.borrow_mut() = v;
    });
    homes.push(web_sys::sim::the_document().head().unwrap().into());
    homes
}
/// What reaches the console as an uncaught exception.
pub fn watch() -> Rc<RefCell<Vec<String>>> {
    let v: Rc<RefCell<Vec<String>>> = Default::default();
    let w = v.clone();
    let show = std::env::var_os("SIM_PAGE").is_some();
    wasm_bindgen::sim::set_watch(Some(Rc::new(move |op, d| {
        if show {
            eprintln!("{op} {d}");
        }
        if op == "uncaught" || op == "console" {
            w.borrow_mut().push(format!("{op}: {d}"));
        }
    })));
    v
}
pub fn micro() {
    run::no_panic("the application", || wasm_bindgen::sim::run_microtasks());
}
impl Page {
    pub fn given(n: &Dom) -> BTreeMap<String, Dom> {
        let v = Self::styles(n);
        let m: BTreeMap<String, Dom> = v.iter().map(|x| (x.0.clone(), x.2.clone())).collect();
        ensure!(m.len() == v.len(), "duplicate", "the server sends style elements that share an id: {:?}", v.iter().map(|x| &x.0).collect::<Vec<_>>());
        m
    }
    /// What the page shows after hydration is what the server sent.
    fn compare(&self) {
        let Some(s) = &self.served else { return };
        each(&self.root, &mut |e| {
            let Some(k) = e.get_attribute("data-n") else { return };
            let k: u64 = k.parse().unwrap();
            let Some(was) = s.classes.get(&k) else { return };
            let now = e.get_attribute("class").unwrap_or_default();
            ensure!(*was == now, "hydrated-class", "component {k} has class {now:?} after hydration, the server rendered {was:?}");
        });
        app(|a| {
            for p in a.shown.borrow().values() {
                let (Some(v), Some((q, _))) = (s.media.get(&p.key), &p.media) else { continue };
                ensure!(p.seen.first() == Some(v), "fallback", "component {} has {:?} for {q:?} while it is hydrated, the server rendered {v}", p.key, p.seen);
            }
        });
    }
    fn alerts(&self) {
        let v = self.alerts.borrow();
        ensure!(v.is_empty(), "uncaught", "the browser reports {}", run::clip(&v.join("; "), 600));
    }
    pub fn step(&mut self, s: &Step) {
        match &s.op {
            Do::Edit { at, edit: e } => {
                if edit(*at, e, &mut self.next_key) {
                    run::op(&format!("edit {}", serde_json::to_string(e).unwrap()));
                    self.quiet = false;
                    self.render();
                }
            }
            Do::Rerender => {
                run::op("render again");
                self.render();
            }
            Do::Poke(k) => {
                let pick = app(|a| {
                    let v = a.pokes.borrow();
                    let n = v.len();
                    v.iter().nth(if n > 0 { k % n } else { 0 }).map(|(i, h)| (*i, h.clone()))
                });
                if let Some((i, h)) = pick {
                    run::op("poke");
                    self.quiet = false;
                    let el = self.root.query_selector(&format!("[data-k=\"{i}\"]")).unwrap();
                    match el {
                        Some(e) if k % 3 > 0 => run::no_panic("a click", || e.unchecked_ref::<HtmlElement>().click()),
                        _ => run::no_panic("setting a state", || h.set(*h + 1)),
                    }
                }
            }
            Do::Resume(k) => {
                let h = app(|a| {
                    let mut w = a.waiting.borrow_mut();
                    let n = w.len();
                    (n > 0).then(|| w.remove(k % n))
                });
                if let Some(h) = h {
                    run::fault("suspension.resumed");
                    run::op("resume");
                    run::no_panic("resuming", || if k % 4 == 3 { drop(h) } else { h.resume() });
                }
            }
            Do::Env { width, dark, print } => {
                run::fault("media.changed");
                run::op(&format!("environment {width} {dark} {print}"));
                web_sys::sim::set_media(web_sys::Env { width: *width, dark: *dark, print: *print });
            }
            Do::Renew(k) => {
                let k = k % self.mgrs.len();
                run::fault("manager.replaced");
                run::op("renew");
                let (m, _) = build_manager(&self.mgrs[k], Some(&self.homes[k]));
                let old = app(|a| {
                    a.renewed.borrow_mut()[k] += 1;
                    std::mem::replace(&mut a.mgrs.borrow_mut()[k], m)
                });
                run::no_panic("dropping a manager", || drop(old));
                self.quiet = false;
                self.render();
            }
            Do::Frame => {
                run::op("frame");
                let n = run::no_panic("a media change", || web_sys::sim::report_media_changes());
                if n > 0 {
                    run::fault("media.reported");
                }
            }
            Do::Task(k) => self.task(*k),
            Do::Settle => {
                self.settle();
                return;
            }
        }
        if !s.joined {
            micro();
        } else {
            run::fault("task.shared");
        }
        self.alerts();
    }
    fn task(&mut self, k: usize) {
        let w = wasm_bindgen::sim::waiting();
        if !w.is_empty() {
            let k = k % w.len();
            run::fault(&format!("task.{}", w[k].0));
            run::op("task");
            run::no_panic("a task", || wasm_bindgen::sim::run_task(k));
        }
    }
    fn render(&self) {
        let u = app(|a| a.update.borrow().clone());
        if let Some(u) = u {
            run::no_panic("an update", || u.force_update());
        }
    }
    /// Lets everything that is pending happen, whatever it leads to.
    pub fn settle(&mut self) {
        for round in 0.. {
            ensure!(round < 200, "never-settles", "the application never comes to rest");
            micro();
            if web_sys::sim::media_lists().len() > 100_000 {
                run::violate("never-settles", "the application never comes to rest".into());
            }
            if run::no_panic("a media change", || web_sys::sim::report_media_changes()) > 0 {
                continue;
            }
            let w = wasm_bindgen::sim::waiting();
            if !w.is_empty() {
                self.task(0);
                continue;
            }
            break;
        }
        self.alerts();
        run::op("settled");
        if self.quiet {
            self.compare();
            self.full |= self.served.is_some() && app(|a| a.waiting.borrow().is_empty());
        }
        self.check();
    }
    fn home(&self, m: Option<usize>) -> &Dom {
        match m {
            Some(m) => &self.homes[m % (self.homes.len() - 1)],
            None => self.homes.last().unwrap(),
        }
    }
    fn styles(n: &Dom) -> Vec<(String, String, Dom)> {
        web_sys::sim::kids(n)
            .into_iter()
            .filter_map(|k| {
                let e = k.dyn_ref::<Element>()?;
                (e.tag_name() == "STYLE").then(|| (e.get_attribute("data-style").unwrap_or_default(), e.text_content().unwrap_or_default(), k.clone()))
            })
            .collect()
    }
    /// Distinct containers.
    fn places(&self) -> Vec<Dom> {
        let mut v: Vec<Dom> = vec![];
        for h in self.homes.iter().chain([&self.given_home]) {
            if !v.contains(h) {
                v.push(h.clone());
            }
        }
        v
    }
    /// What the page shows is what its components ask for.
    pub fn check(&mut self) {
        let probes = app(|a| a.probes.borrow().clone());
        if std::env::var_os("SIM_PAGE").is_some() {
            eprintln!("{}\n{probes:#?}", web_sys::sim::the_document().document_element().unwrap().outer_html());
        }
        let mut globals: Vec<(Option<usize>, Model)> = vec![];
        // Managers that have been replaced are gone, and with them their styles.
        let current: Vec<usize> = app(|a| a.renewed.borrow().iter().enumerate().map(|(i, k)| i + k * self.mgrs.len()).collect());
        let (known, retired) = std::mem::take(&mut self.known).into_iter().partition(|(_, (m, _))| m.is_none_or(|m| current.contains(&m)));
        self.known = known;
        for (i, p) in &probes {
            // (A component in a suspended part is kept with its global styles, but not in the page.)
            let el = match p.scoped.is_empty() {
                true => None,
                false => self.root.query_selector(&format!("[data-k=\"{i}\"]")).unwrap(),
            };
            if let Some(el) = el {
                let attr = el.get_attribute("class").unwrap_or_default();
                let classes: Vec<&str> = attr.split_whitespace().filter(|c| !c.contains(".rs:") && *c != "own").collect();
                ensure!(classes.len() == p.scoped.len(), "classes", "component {i} carries classes {classes:?}, it has {} styles", p.scoped.len());
                for (c, (name, m)) in classes.iter().zip(&p.scoped) {
                    ensure!(name.is_empty() || c == name, "class-differs", "component {i} carries {c:?}, its style is {name:?}");
                    match self.known.get(*c) {
                        Some((mgr, known)) => ensure!(*mgr == p.mgr && known.items == m.items, "class-shared", "component {i} below manager {:?} carries class {c:?} for {:?}, which is the class of {:?} of manager {mgr:?}", p.mgr, m.text(), known.text()),
                        None => {
                            self.known.insert(c.to_string(), (p.mgr, m.clone()));
                        }
                    }
                }
            }
            if let Some(g) = &p.global {
                globals.push((p.mgr, g.clone()));
            }
            if let Some((q, v)) = &p.media {
                let now = web_sys::evaluate(q, &web_sys::sim::media());
                ensure!(*v == now, "stale-media", "component {i} has {v} for {q:?}, which is {now} now in {:?}; it has seen {:?}", web_sys::sim::media(), p.seen);
            }
        }
        for (c, (m, _)) in retired {
            let here = self.places().iter().any(|p| Self::styles(p).iter().any(|x| x.0 == c));
            ensure!(!here || self.known.contains_key(&c), "left-over", "the style of class {c:?} is still in the document, its manager {m:?} has been replaced");
        }
        // Every scoped style that is or was shown is there (they are never unregistered), once, in its container.
        let places = self.places();
        let mut all: Vec<(usize, String, String, Dom)> = vec![];
        for (k, p) in places.iter().enumerate() {
            all.extend(Self::styles(p).into_iter().map(|(a, b, c)| (k, a, b, c)));
        }
        run::see("styles", &all.iter().map(|x| format!("{}:{} ", x.0, x.1)).collect::<String>());
        let prefixes = app(|a| a.mgrs.borrow().iter().map(|m| m.prefix().to_string()).collect::<Vec<_>>());
        // Where a style of this manager with this id would be.
        let at = |mgr: Option<usize>, id: &str| {
            let prefix = mgr.map(|m| prefixes[m % prefixes.len()].as_str()).unwrap_or("stylist");
            if !id.strip_prefix(prefix).is_some_and(|r| r.starts_with('-')) {
                return usize::MAX;
            }
            let home = if self.given.contains_key(id) { &self.given_home } else { self.home(mgr) };
            places.iter().position(|p| p == home).unwrap()
        };
        for (c, (mgr, m)) in &self.known {
            let els: Vec<_> = all.iter().filter(|x| x.1 == *c).collect();
            ensure!(els.len() == 1, "scoped-style", "the style of class {c:?} (manager {mgr:?}) is {} times in the document; there are {:?}", els.len(), all.iter().map(|x| (x.0, &x.1)).collect::<Vec<_>>());
            ensure!(els[0].0 == at(*mgr, c), "wrong-container", "the style of class {c:?} of manager {mgr:?} is in the container {} instead of {}", els[0].0, at(*mgr, c));
            let d = differs(&els[0].2, &m.expect(Some(c)));
            ensure!(d.is_none(), "wrong-text", "the style of class {c:?}: {}", d.unwrap());
        }
        // Global styles are there exactly while something shows them.
        let mut rest: Vec<_> = all.iter().filter(|x| !self.known.contains_key(&x.1)).collect();
        for (mgr, m) in &globals {
            let want = m.expect(None);
            let there = all.iter().any(|x| !self.known.contains_key(&x.1) && x.0 == at(*mgr, &x.1) && differs(&x.2, &want).is_none());
            ensure!(there, "global-missing", "the global style {:?} is shown by a component below manager {mgr:?}, but is not in its container; there are {:?}", m.text(), all.iter().map(|x| (x.0, &x.1)).collect::<Vec<_>>());
        }
        // (What may never have been hydrated is still there.)
        let asleep = |id: &str| self.given.contains_key(id) && !self.full;
        rest.sort_by_key(|x| self.excused(&x.1, &x.2) || asleep(&x.1));
        // What has not been hydrated yet keeps its styles.
        if app(|a| a.renewed.borrow().iter().all(|k| *k == 0)) {
            each(&self.root, &mut |e| {
                let attr = e.get_attribute("class").unwrap_or_default();
                for c in attr.split_whitespace().filter(|c| self.given.contains_key(*c)) {
                    ensure!(all.iter().any(|x| x.1 == c), "removed", "the page shows the class {c:?}, the server's style for it has been removed");
                }
            });
        }
        // Each needs a component that shows it.
        let mut free = globals.clone();
        rest.retain(|x| {
            let i = free.iter().position(|(mgr, m)| x.0 == at(*mgr, &x.1) && differs(&x.2, &m.expect(None)).is_none());
            match i {
                Some(i) => {
                    free.remove(i);
                    false
                }
                None => true,
            }
        });
        let rest: Vec<_> = rest.iter().filter(|x| !self.excused(&x.1, &x.2) && !asleep(&x.1)).collect();
        ensure!(rest.is_empty(), "left-over", "the document holds the style {:?} {:?}, which nothing shows", rest[0].1, rest[0].2);
        for (id, n) in &self.given {
            let here = all.iter().find(|x| x.1 == *id);
            if let Some(x) = here {
                ensure!(x.3 == *n, "replaced", "the style element {id:?} that came with the page has been replaced");
            }
        }
        // Nobody listens for nothing.
        let listeners: usize = web_sys::sim::media_lists().iter().map(|m| m.sim_listeners()).sum();
        let media = probes.values().filter(|p| p.media.is_some()).count();
        ensure!(listeners <= media, "still-listening", "{listeners} media listeners for {media} components");
        let ids: BTreeSet<&String> = all.iter().map(|x| &x.1).collect();
        ensure!(ids.len() == all.len(), "duplicate", "style elements share an id: {:?}", all.iter().map(|x| (x.0, &x.1)).collect::<Vec<_>>());
    }
    /// A scoped style that was made by a part that never came into the page.
    fn excused(&self, id: &str, text: &str) -> bool {
        app(|a| {
            let v = a.sheets.borrow();
            let mut ms: Vec<Model> = v.clone();
            for v in VALS {
                ms.push(model(vec![decl("color", v), block("&:hover", "margin", "3px")]));
                ms.push(model(vec![decl("background-color", v), block(".k", "color", v)]));
                ms.push(model(vec![decl("--c", v)]));
                ms.push(model(vec![decl("border-color", v)]));
                ms.push(model(vec![decl("width", "1px"), block("p", "content", v)]));
                ms.push(model(vec![decl("content", v), decl("content", "none")]));
                ms.push(model(vec![decl("--plain", v)]));
                ms.push(model(vec![decl("--hook", v)]));
            }
            ms.iter().any(|m| differs(text, &m.expect(Some(id))).is_none())
        })
    }
}
/// The application goes away, and with it everything only it used.
pub fn end(mut page: Page, handle: yew::AppHandle<App>) {
    run::op("destroy");
    run::no_panic("destroying the application", || handle.destroy());
    page.settle();
    let left = app(|a| a.probes.borrow().len());
    ensure!(left == 0, "harness", "{left} components are still there");
    let listeners: usize = web_sys::sim::media_lists().iter().map(|m| m.sim_listeners()).sum();
    ensure!(listeners == 0, "still-listening", "{listeners} media listeners are left when the application is gone");
    app(|a| *a.update.borrow_mut() = None);
    let m = app(|a| std::mem::take(&mut *a.mgrs.borrow_mut()));
    run::no_panic("dropping the managers", || drop(m));
    app(|a| a.waiting.borrow_mut().clear());
    micro();
    for p in page.places() {
        for (id, text, _) in Page::styles(&p) {
            if page.given.contains_key(&id) && !page.full {
                continue;
            }
            let own = matches!(page.known.get(&id), Some((None, _))) || id.starts_with("stylist-");
            ensure!(own, "left-over", "the style {id:?} {text:?} is still in the document when its manager is gone");
        }
    }
}
