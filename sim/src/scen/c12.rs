//! C12: a server-rendered page's classes are all defined by its own style data.
use super::world::{self, activate, seed_rng};
use super::*;
use crate::css::{self, Fact, Item, Model};
use crate::ensure;
use crate::rt::{self, Sched};
use crate::run;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use stylist::manager::{render_static, StaticReader, StyleData, StyleManager};
use stylist::yew::{styled_component, styled_component_impl, use_style, Global, ManagerProvider};
use stylist::{Style, StyleSource};
use yew::prelude::*;
use yew::suspense::{Suspension, SuspensionHandle};
use yew::LocalServerRenderer;

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "lowercase")]
enum Node {
    Text(String),
    Elem(Vec<Node>),
    /// A component with a style of its own.
    Styled { how: u8, s: usize, v: u8, kids: Vec<Node> },
    Global { how: u8, s: usize, v: u8 },
    Provider { m: usize, kids: Vec<Node> },
    Suspense(Vec<Node>),
    /// Suspends so many times before it renders; with a style it asks for before or after.
    Waits { times: u8, before: bool, s: usize, kids: Vec<Node> },
    Panics,
}
#[derive(Serialize, Deserialize, Clone)]
struct Mg {
    prefix: String,
    writer: bool,
}
#[derive(Serialize, Deserialize, Clone)]
struct Render {
    tree: Vec<Node>,
    mgrs: Vec<Mg>,
    hydratable: bool,
    /// Dropped after so many steps.
    cancel: Option<u32>,
    /// Starts after so many steps of its thread.
    start: u32,
    /// The styles of the first manager are read after so many steps already, as when the head of
    /// a page is sent before its body.
    #[serde(default)]
    early: Option<u32>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Th {
    rng: u64,
    /// Seed of the executor: which task is polled, which suspension resumes.
    drive: u64,
    renders: Vec<Render>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    sched: Sched,
    sheets: Vec<Model>,
    threads: Vec<Th>,
    /// Early reads are done by a thread of its own.
    #[serde(default)]
    clerk: bool,
}
const HOWS: u8 = 11;
const VALS: &[&str] = &["red", "#FFF", "\"</style>\"", "\"a & b\"", "var(--x)"];

struct D<'a> {
    r: &'a mut Rng,
    sheets: usize,
    mgrs: usize,
    wait: bool,
    boom: bool,
}
impl D<'_> {
    fn kids(&mut self, depth: usize, n: usize) -> Vec<Node> {
        (0..self.r.range(0, n)).map(|_| self.node(depth)).collect()
    }
    fn node(&mut self, depth: usize) -> Node {
        let s = self.r.below(self.sheets);
        let v = self.r.below(VALS.len()) as u8;
        if depth == 0 {
            return match self.r.below(6) {
                0 => Node::Text(self.r.pick(&["x", "a < b & c", "\"quoted\"", "日本語"]).to_string()),
                1 => Node::Global { how: self.r.below(4) as u8, s, v },
                _ => Node::Styled { how: self.r.below(HOWS as usize) as u8, s, v, kids: vec![] },
            };
        }
        match self.r.below(20) {
            0 => Node::Text("text".into()),
            1 => Node::Elem(self.kids(depth - 1, 3)),
            2..=4 => Node::Global { how: self.r.below(4) as u8, s, v },
            5..=7 => Node::Provider { m: self.r.below(self.mgrs), kids: self.kids(depth - 1, 3) },
            8 | 9 if self.wait => Node::Suspense(self.kids(depth - 1, 3)),
            10..=12 if self.wait => Node::Waits { times: *self.r.pick(&[1, 1, 2, 3]), before: self.r.chance(1, 2), s, kids: self.kids(depth - 1, 2) },
            13 if self.boom && self.r.chance(1, 3) => Node::Panics,
            _ => Node::Styled { how: self.r.below(HOWS as usize) as u8, s, v, kids: self.kids(depth - 1, 3) },
        }
    }
}
fn draw(r: &mut Rng, thorough: bool) -> Value {
    let n = r.range(1, 5);
    let sheets = Model::family(r, n, 2);
    let nt = *r.pick(&[1, 1, 2, 2, 3]);
    let wait = r.chance(4, 5);
    let boom = r.chance(1, 4);
    let cancel = r.chance(1, 3);
    let threads = (0..nt)
        .map(|_| {
            let renders = (0..r.range(1, if thorough { 5 } else { 3 }))
                .map(|_| {
                    let mgrs: Vec<Mg> = (0..r.range(1, 3)).map(|_| Mg { prefix: r.pick(&["a", "app", "stylist", "x1", "größe"]).to_string(), writer: r.chance(9, 10) }).collect();
                    let mut d = D { sheets: sheets.len(), mgrs: mgrs.len(), wait, boom, r };
                    // Usually one provider around everything, as an application has it.
                    let mut tree = d.kids(3, 4);
                    if d.r.chance(3, 4) {
                        tree = vec![Node::Provider { m: 0, kids: tree }];
                    }
                    Render { tree, mgrs, hydratable: r.chance(2, 3), cancel: (cancel && r.chance(1, 2)).then(|| r.below(25) as u32), start: if r.chance(1, 2) { 0 } else { r.below(20) as u32 }, early: r.chance(1, 6).then(|| r.below(12) as u32) }
                })
                .collect();
            Th { rng: r.next(), drive: r.next(), renders }
        })
        .collect();
    let clerk = r.chance(1, 2);
    serde_json::to_value(Plan { sched: Sched::draw(r), sheets, threads, clerk }).unwrap()
}

// ---- the application ----
struct Flat {
    node: Node,
    /// The provider it is below, if any: index into the managers.
    mgr: Option<usize>,
    kids: Vec<usize>,
}
struct EnvIn {
    nodes: Vec<Flat>,
    top: Vec<usize>,
    sheets: Arc<Vec<Model>>,
    mgrs: Vec<(StyleManager, RefCell<Option<StaticReader>>)>,
    waiting: RefCell<Vec<(usize, SuspensionHandle)>>,
    waited: RefCell<HashMap<usize, u8>>,
    resumes: Cell<u32>,
}
#[derive(Clone)]
struct Env(Rc<EnvIn>);
impl PartialEq for Env {
    fn eq(&self, o: &Env) -> bool {
        Rc::ptr_eq(&self.0, &o.0)
    }
}
#[derive(Properties, PartialEq, Clone)]
struct P {
    env: Env,
    id: usize,
    #[prop_or_default]
    children: Html,
}
impl P {
    fn how(&self) -> (u8, usize, u8) {
        match self.env.0.nodes[self.id].node {
            Node::Styled { how, s, v, .. } | Node::Global { how, s, v } => (how, s % self.env.0.sheets.len(), v % VALS.len() as u8),
            Node::Waits { s, .. } => (0, s % self.env.0.sheets.len(), 0),
            _ => unreachable!(),
        }
    }
    fn text(&self) -> String {
        self.env.0.sheets[self.how().1].text()
    }
    fn val(&self) -> &'static str {
        VALS[self.how().2 as usize]
    }
}
/// The meaning of the macro-made sheets below.
fn macro_model(how: u8, v: u8) -> Vec<Model> {
    let v = VALS[v as usize % VALS.len()];
    let d = |a: &str, b: &str| Item::Decl(a.into(), b.into());
    let b = |s: &str, a: &str, b: &str| Item::Block { sels: vec![s.into()], body: vec![css::Inner::Decl(a.into(), b.into())] };
    let m = |items| Model { items, noise: 0 };
    match how {
        2 => vec![m(vec![d("color", v), b("&:hover", "margin", "3px")])],
        3 => vec![m(vec![d("background-color", v), b(".k", "color", v)])],
        4 => vec![m(vec![d("--c", v)])],
        5 => vec![m(vec![d("border-color", v)]), m(vec![d("width", "1px"), b("p", "content", v)])],
        6 => vec![m(vec![d("content", v), d("content", "none")])],
        7 => vec![m(vec![d("--plain", v)])],
        10 => vec![m(vec![d("--hook", v)])],
        _ => vec![],
    }
}
#[component]
fn UseText(p: &P) -> Html {
    let text = p.text();
    let s = use_style(text.as_str());
    html! { <div data-k={p.id.to_string()} class={s}>{p.children.clone()}</div> }
}
#[component]
fn UseSheet(p: &P) -> Html {
    let sheet: stylist::ast::Sheet = p.text().parse().unwrap();
    let s = use_style(sheet);
    html! { <div data-k={p.id.to_string()} class={classes!("own", s)}>{p.children.clone()}</div> }
}
#[component]
fn UseSource(p: &P) -> Html {
    let src: StyleSource = p.text().parse().unwrap();
    let s = use_style(src);
    html! { <div data-k={p.id.to_string()} class={s.get_class_name().to_string()}>{p.children.clone()}</div> }
}
#[component]
fn UseLiteral(p: &P) -> Html {
    let s = stylist::yew::use_style!("color: ${v}; &:hover { margin: 3px; }", v = p.val());
    html! { <div data-k={p.id.to_string()} class={s}>{p.children.clone()}</div> }
}
#[component]
fn UseInline(p: &P) -> Html {
    let v = p.val();
    let s = stylist::yew::use_style!(background-color: ${v}; .k { color: ${v}; });
    html! { <div data-k={p.id.to_string()} class={s}>{p.children.clone()}</div> }
}
#[styled_component]
fn StyledLiteral(p: &P) -> Html {
    html! { <div data-k={p.id.to_string()} class={css!("--c: ${v};", v = p.val())}>{p.children.clone()}</div> }
}
#[styled_component(StyledTwo)]
fn styled_two(p: &P) -> Html {
    let v = p.val();
    html! { <div data-k={p.id.to_string()} class={classes!(css!(border-color: ${v};), "own", css!("width: 1px; p { content: ${v}; }", v = v))}>{p.children.clone()}</div> }
}
#[styled_component_impl]
#[component]
fn StyledImpl(p: &P) -> Html {
    html! { <div data-k={p.id.to_string()} class={css!(content: ${p.val()}; content: none;)}>{p.children.clone()}</div> }
}
/// Not aware of the provider: the macro and the constructor use the thread's own manager.
#[component]
fn PlainMacro(p: &P) -> Html {
    html! { <div data-k={p.id.to_string()} class={stylist::css!("--plain: ${v};", v = p.val())}>{p.children.clone()}</div> }
}
#[component]
fn PlainStyle(p: &P) -> Html {
    let s = Style::new(p.text()).unwrap();
    html! { <div data-k={p.id.to_string()} class={s}>{p.children.clone()}</div> }
}
#[styled_component_impl]
#[hook]
fn use_hooked(v: &str) -> Classes {
    css!("--hook: ${v};", v = v).into()
}
#[component]
fn UseHooked(p: &P) -> Html {
    let c = use_hooked(p.val());
    html! { <div data-k={p.id.to_string()} class={c}>{p.children.clone()}</div> }
}
#[component]
fn Waiting(p: &P) -> HtmlResult {
    let env = &p.env.0;
    let Node::Waits { times, before, .. } = env.nodes[p.id].node else { unreachable!() };
    let mgr = use_context::<StyleManager>().unwrap_or_default();
    let text = p.text();
    let make = || Style::new_with_manager(text.as_str(), &mgr).unwrap();
    let early = before.then(make);
    {
        let mut w = env.waited.borrow_mut();
        let n = w.entry(p.id).or_insert(0);
        if *n < times {
            *n += 1;
            let (s, h) = Suspension::new();
            env.waiting.borrow_mut().push((p.id, h));
            return Err(s.into());
        }
    }
    let s = early.unwrap_or_else(make);
    Ok(html! { <div data-k={p.id.to_string()} class={s}>{p.children.clone()}</div> })
}
#[component]
fn Panicking(_p: &P) -> Html {
    run::fault("component.panic");
    std::panic::panic_any(Injected)
}
struct Injected;
#[component]
fn App(p: &P) -> Html {
    // Something has to be there to wait in.
    html! { <main><Suspense fallback={html! { <i>{"top"}</i> }}>{kids(&p.env, &p.env.0.top)}</Suspense></main> }
}
fn kids(env: &Env, ids: &[usize]) -> Html {
    ids.iter().map(|i| html_of(env, *i)).collect()
}
fn html_of(env: &Env, id: usize) -> Html {
    let n = &env.0.nodes[id];
    let e = env.clone();
    let k = kids(env, &n.kids);
    let p = P { env: e.clone(), id, children: Html::default() };
    match &n.node {
        Node::Text(t) => html! { <span>{t}</span> },
        Node::Elem(_) => html! { <section>{k}</section> },
        Node::Suspense(_) => html! { <Suspense fallback={html! { <i>{"fallback"}</i> }}>{k}</Suspense> },
        Node::Provider { m, .. } => {
            let m = m % env.0.mgrs.len();
            html! { <div data-p={id.to_string()}><ManagerProvider manager={env.0.mgrs[m].0.clone()}>{k}</ManagerProvider></div> }
        }
        Node::Global { how, .. } => {
            let t = p.text();
            match how % 4 {
                0 => html! { <Global css={t} /> },
                1 => html! { <Global css={t.as_str()} /> },
                2 => html! { <Global css={t.parse::<stylist::ast::Sheet>().unwrap()} /> },
                _ => html! { <Global css={stylist::css!("--g: ${v}; body { color: ${v}; }", v = p.val())} /> },
            }
        }
        Node::Waits { .. } => html! { <Waiting env={e} {id}>{k}</Waiting> },
        Node::Panics => html! { <Panicking env={e} {id} /> },
        Node::Styled { how, .. } => match how % HOWS {
            0 => html! { <UseText env={e} {id}>{k}</UseText> },
            1 => html! { <UseSheet env={e} {id}>{k}</UseSheet> },
            2 => html! { <UseLiteral env={e} {id}>{k}</UseLiteral> },
            3 => html! { <UseInline env={e} {id}>{k}</UseInline> },
            4 => html! { <StyledLiteral env={e} {id}>{k}</StyledLiteral> },
            5 => html! { <StyledTwo env={e} {id}>{k}</StyledTwo> },
            6 => html! { <StyledImpl env={e} {id}>{k}</StyledImpl> },
            7 => html! { <PlainMacro env={e} {id}>{k}</PlainMacro> },
            8 => html! { <PlainStyle env={e} {id}>{k}</PlainStyle> },
            9 => html! { <UseSource env={e} {id}>{k}</UseSource> },
            _ => html! { <UseHooked env={e} {id}>{k}</UseHooked> },
        },
    }
}
fn flatten(tree: &[Node], mgr: Option<usize>, nm: usize, out: &mut Vec<Flat>) -> Vec<usize> {
    let mut ids = vec![];
    for n in tree {
        let id = out.len();
        ids.push(id);
        out.push(Flat { node: n.clone(), mgr, kids: vec![] });
        let (k, m) = match n {
            Node::Elem(k) | Node::Suspense(k) => (Some(k), mgr),
            Node::Styled { kids, .. } | Node::Waits { kids, .. } => (Some(kids), mgr),
            Node::Provider { m, kids } => (Some(kids), Some(m % nm)),
            _ => (None, mgr),
        };
        if let Some(k) = k {
            let v = flatten(k, m, nm, out);
            out[id].kids = v;
        }
    }
    ids
}

// ---- the executor ----
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}
struct Task {
    env: Env,
    fut: Option<Pin<Box<dyn Future<Output = String>>>>,
    flag: Arc<Flag>,
    steps: u32,
    plan: Render,
    panics: bool,
    html: Option<String>,
    early: Option<Arc<Early>>,
}
/// What was read while the render went on: nothing until it has been.
type Early = Mutex<Option<(StyleData, Vec<(String, String)>)>>;
/// Another thread that reads for those that render.
type Clerk = Option<mpsc::Sender<(StaticReader, Arc<Early>)>>;
fn read_early(r: StaticReader, to: &Early) {
    let d = run::no_panic("read_style_data", || r.read_style_data());
    let l = list(&d);
    *to.lock().unwrap() = Some((d, l));
}
fn spawn(plan: Render, sheets: &Arc<Vec<Model>>) -> Task {
    let mut nodes = vec![];
    let mgrs: Vec<_> = plan
        .mgrs
        .iter()
        .map(|m| {
            let b = StyleManager::builder().prefix(m.prefix.clone().into());
            if m.writer {
                let (w, r) = render_static();
                (run::no_panic("building a manager", || b.writer(w).build()).unwrap(), RefCell::new(Some(r)))
            } else {
                (run::no_panic("building a manager", || b.build()).unwrap(), RefCell::new(None))
            }
        })
        .collect();
    let top = flatten(&plan.tree, None, mgrs.len(), &mut nodes);
    let panics = nodes.iter().any(|n| matches!(n.node, Node::Panics));
    let env = Env(Rc::new(EnvIn { nodes, top, sheets: sheets.clone(), mgrs, waiting: Default::default(), waited: Default::default(), resumes: Cell::new(0) }));
    let r = LocalServerRenderer::<App>::with_props(P { env: env.clone(), id: 0, children: Html::default() }).hydratable(plan.hydratable);
    Task { env, fut: Some(Box::pin(r.render())), flag: Arc::new(Flag(AtomicBool::new(true))), steps: 0, plan, panics, html: None, early: None }
}
fn body(th: Th, sheets: Arc<Vec<Model>>, clerk: Clerk) {
    seed_rng(th.rng);
    let mut r = Rng::new(th.drive);
    let mut queue: Vec<Render> = th.renders;
    queue.sort_by_key(|q| std::cmp::Reverse(q.start));
    let mut tasks: Vec<Task> = vec![];
    let mut step = 0u32;
    loop {
        step += 1;
        while queue.last().is_some_and(|q| q.start <= step) || !queue.is_empty() && tasks.iter().all(|t| t.fut.is_none()) {
            let q = queue.pop().unwrap();
            run::op(&format!("render {} nodes", q.tree.len()));
            tasks.push(spawn(q, &sheets));
        }
        let mut acts: Vec<(usize, bool)> = vec![];
        for (i, t) in tasks.iter().enumerate() {
            if t.fut.is_some() {
                if t.flag.0.load(Ordering::SeqCst) {
                    acts.push((i, true));
                }
                // Slower than what is ready to run, like I/O is.
                if !t.env.0.waiting.borrow().is_empty() && (r.chance(1, 2) || acts.is_empty()) {
                    acts.push((i, false));
                }
            }
        }
        let Some((i, poll)) = (if acts.is_empty() { None } else { Some(*r.pick(&acts)) }) else {
            if tasks.iter().all(|t| t.fut.is_none()) && queue.is_empty() {
                break;
            }
            if tasks.iter().all(|t| t.fut.is_none()) {
                continue;
            }
            run::violate("stuck", "a render neither finished nor waits for anything".into());
        };
        let t = &mut tasks[i];
        t.steps += 1;
        if t.plan.cancel.is_some_and(|c| t.steps > c) {
            run::fault("render.cancelled");
            run::op(&format!("cancel {i}"));
            let f = t.fut.take();
            run::no_panic("dropping a render", || drop(f));
            // What it waited for never comes: resuming a dropped render makes Yew itself panic.
            std::mem::forget(std::mem::take(&mut *t.env.0.waiting.borrow_mut()));
            continue;
        }
        if t.plan.early == Some(t.steps - 1) {
            let r = t.env.0.mgrs[0].1.borrow_mut().take();
            if let Some(r) = r {
                run::probe("read-during-render");
                run::op(&format!("read {i}"));
                let slot = Arc::new(Early::default());
                t.early = Some(slot.clone());
                match &clerk {
                    Some(c) => {
                        run::probe("read-during-render-by-another-thread");
                        c.send((r, slot)).unwrap()
                    }
                    None => read_early(r, &slot),
                }
            }
        }
        if !poll {
            let (n, h) = {
                let mut w = t.env.0.waiting.borrow_mut();
                let k = r.below(w.len());
                w.remove(k)
            };
            run::fault("suspension.resumed");
            run::op(&format!("resume {i}.{n}"));
            t.env.0.resumes.set(t.env.0.resumes.get() + 1);
            if r.chance(1, 4) {
                drop(h)
            } else {
                h.resume()
            }
            continue;
        }
        run::op(&format!("poll {i}"));
        t.flag.0.store(false, Ordering::SeqCst);
        let w = Waker::from(t.flag.clone());
        let f = t.fut.as_mut().unwrap();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(&mut Context::from_waker(&w))));
        match res {
            Ok(Poll::Ready(s)) => {
                t.fut = None;
                t.html = Some(s);
                judge(t);
            }
            Ok(Poll::Pending) => {}
            Err(e) => {
                ensure!(t.panics && e.is::<Injected>(), "render-panic", "rendering panicked: {}", run::panic_text(&e));
                let f = t.fut.take();
                let _ = run::guarded(|| drop(f));
                std::mem::forget(std::mem::take(&mut *t.env.0.waiting.borrow_mut()));
            }
        }
    }
    // Nothing that ended early has added anything that is not in its tree.
    for t in tasks.iter().filter(|t| t.html.is_none()) {
        captured(t);
    }
}
/// The sheets a node asks for, with whether it is global.
fn asked(env: &EnvIn, f: &Flat) -> Vec<(bool, Model)> {
    let sheet = |s: usize| env.sheets[s % env.sheets.len()].clone();
    match &f.node {
        Node::Styled { how, s, v, .. } => {
            let m = macro_model(how % HOWS, *v);
            if m.is_empty() { vec![(false, sheet(*s))] } else { m.into_iter().map(|m| (false, m)).collect() }
        }
        Node::Waits { s, .. } => vec![(false, sheet(*s))],
        Node::Global { how, s, v } => {
            let v = VALS[*v as usize % VALS.len()].to_string();
            if how % 4 < 3 {
                vec![(true, sheet(*s))]
            } else {
                vec![(true, Model { items: vec![Item::Decl("--g".into(), v.clone()), Item::Block { sels: vec!["body".into()], body: vec![css::Inner::Decl("color".into(), v)] }], noise: 0 })]
            }
        }
        _ => vec![],
    }
}
fn own_manager(f: &Flat) -> bool {
    matches!(f.node, Node::Styled { how, .. } if matches!(how % HOWS, 7 | 8))
}
type Captured = BTreeMap<String, String>;
fn list(d: &StyleData) -> Vec<(String, String)> {
    match world::listed(d) {
        Ok(l) => l,
        Err(e) => run::violate("markup", format!("the captured data's markup cannot be read: {e}")),
    }
}
/// Reads each manager's captured data and checks that only what the tree asks for is in it.
/// Returns per manager the list of (id, text).
fn captured(t: &Task) -> Vec<Option<Vec<(String, String)>>> {
    let env = &t.env.0;
    env.mgrs
        .iter()
        .enumerate()
        .map(|(mi, (_, r))| {
            let l = list(&run::no_panic("read_style_data", || r.borrow_mut().take().map(|r| r.read_style_data()))?);
            let want: Vec<(bool, Model)> = env.nodes.iter().filter(|f| f.mgr == Some(mi) && !own_manager(f)).flat_map(|f| asked(env, f)).collect();
            for (id, text) in &l {
                let ok = want.iter().any(|(g, m)| css::diff_escaped(text, &m.expect((!*g).then_some(id.as_str()))).is_none());
                ensure!(ok, "foreign-style", "manager {mi} captured {id:?} {text:?}, which nothing below it asks for");
            }
            Some(l)
        })
        .collect()
}
fn judge(t: &Task) {
    let env = &t.env.0;
    let html = t.html.as_ref().unwrap();
    run::see("html", html);
    let root = match crate::html::read(html) {
        Ok(r) => r,
        Err(e) => run::violate("bad-html", format!("{e}: {html}")),
    };
    let caps = captured(t);
    let mut classes: HashMap<usize, Vec<String>> = HashMap::new();
    let mut embedded: Vec<(usize, StyleData)> = vec![];
    root.walk(&mut |e| {
        if let Some(k) = e.attrs.get("data-k") {
            let c = e.attrs.get("class").cloned().unwrap_or_default();
            // With debug_style_locations, the place in the source is a class as well.
            classes.insert(k.parse().unwrap(), c.split_whitespace().filter(|c| !c.contains(".rs:") && *c != "own").map(String::from).collect());
        }
        if let Some(k) = e.attrs.get("data-p") {
            let s: Vec<_> = e.kids.iter().filter(|k| k.tag == "script").collect();
            ensure!(s.len() == 1, "state", "the provider embeds {} states", s.len());
            let d = crate::html::base64(&s[0].text).and_then(|b| bincode2::serde::decode_from_slice::<(Option<StyleData>, Option<()>), _>(&b, bincode2::config::standard()).ok());
            match d {
                Some(((Some(d), _), _)) => embedded.push((k.parse().unwrap(), d)),
                _ => run::violate("state", format!("the embedded state {:?} cannot be decoded", s[0].text)),
            }
        }
    });
    let mut used: HashMap<usize, Vec<(bool, String, Vec<Fact>)>> = HashMap::new();
    for (id, f) in env.nodes.iter().enumerate() {
        let want = asked(env, f);
        let cs = classes.get(&id).cloned().unwrap_or_default();
        if want.is_empty() {
            continue;
        }
        let mgr = f.mgr.filter(|_| !own_manager(f));
        if !want[0].0 {
            ensure!(cs.len() == want.len(), "classes", "node {id} {:?} carries classes {cs:?}, it has {} styles", f.node, want.len());
        }
        for (k, (g, m)) in want.iter().enumerate() {
            match mgr {
                Some(mi) => {
                    let Some(cap) = &caps[mi] else { continue };
                    if *g {
                        // (A scoped style without scoped parts has the same text.)
                        let n = cap.iter().filter(|(i, t)| !classes.values().flatten().any(|c| c == i) && css::diff_escaped(t, &m.expect(None)).is_none()).count();
                        ensure!(n == 1, "global", "the global style {:?} of node {id} is {n} times in the data of its manager {mi}: {cap:?}", m.text());
                        let g = cap.iter().find(|(i, t)| !classes.values().flatten().any(|c| c == i) && css::diff_escaped(t, &m.expect(None)).is_none()).unwrap();
                        used.entry(mi).or_default().push((true, g.0.clone(), vec![]));
                    } else {
                        let c = &cs[k];
                        let d = cap.iter().find(|(i, _)| i == c);
                        ensure!(d.is_some(), "undefined-class", "node {id} {:?} carries class {c:?}, which the data of its manager {mi} does not define: {cap:?}", f.node);
                        let d = css::diff_escaped(&d.unwrap().1, &m.expect(Some(c)));
                        ensure!(d.is_none(), "wrong-css", "class {c:?} of node {id} {:?}: {}", f.node, d.unwrap());
                        ensure!(c.starts_with(&format!("{}-", t.plan.mgrs[mi].prefix)), "prefix", "class {c:?} of node {id} is not of its provider {:?}", t.plan.mgrs[mi].prefix);
                        used.entry(mi).or_default().push((false, c.clone(), vec![]));
                    }
                }
                None if !*g => {
                    // The thread's own manager: asking again gives the same class.
                    let c = &cs[k];
                    for (mi, cap) in caps.iter().enumerate() {
                        let inside = cap.iter().flatten().any(|(i, _)| i == c);
                        ensure!(!inside, "leaked", "node {id} {:?} is below no provider, but its class {c:?} is in the data of manager {mi}", f.node);
                    }
                    if matches!(f.node, Node::Styled { how, .. } if matches!(how % HOWS, 0 | 1 | 8 | 9)) || matches!(f.node, Node::Waits { .. }) {
                        let s = run::no_panic("Style::new", || Style::new(m.text()).unwrap());
                        ensure!(s.get_class_name() == c, "other-manager", "node {id} {:?} is below no provider, but its class {c:?} is not of the thread's own manager, which has {:?}", f.node, s.get_class_name());
                        let d = css::diff(s.get_style_str(), &m.expect(Some(c)));
                        ensure!(d.is_none(), "wrong-css", "class {c:?} of node {id} {:?}: {}", f.node, d.unwrap());
                    }
                }
                None => {}
            }
        }
    }
    for (mi, cap) in caps.iter().enumerate() {
        let Some(cap) = cap else { continue };
        for (i, text) in cap {
            let u = used.get(&mi).is_some_and(|u| u.iter().any(|x| x.1 == *i));
            ensure!(u, "unused-style", "manager {mi} captured {i:?} {text:?} which is not in the page");
        }
    }
    let lacks = |p: usize, mi: usize, l: &[String]| {
        let mut below = vec![p];
        while let Some(x) = below.pop() {
            below.extend(&env.nodes[x].kids);
            let f = &env.nodes[x];
            if f.mgr == Some(mi) && x != p && !own_manager(f) {
                for c in classes.get(&x).into_iter().flatten() {
                    ensure!(l.contains(c), "state-lacks", "provider {p} embeds {l:?}, which does not define class {c:?} of node {x} below it");
                }
            }
        }
    };
    // What is embedded in the page is enough to define what is below each provider.
    for (p, d) in embedded {
        let Node::Provider { m, .. } = env.nodes[p].node else { continue };
        let mi = m % env.mgrs.len();
        // The texts are not part of it, the client makes them from the sheets.
        let l: Vec<String> = list(&d).into_iter().map(|x| x.0).collect();
        match &caps[mi] {
            None if t.early.is_some() && mi == 0 => {
                let e = t.early.as_ref().unwrap().lock().unwrap();
                let e = e.iter().flat_map(|e| &e.1).collect::<Vec<_>>();
                ensure!(e.iter().zip(&l).all(|(e, l)| e.0 == *l), "state", "provider {p} embeds {l:?}, but what was read meanwhile is {e:?}");
                lacks(p, mi, &l);
            }
            None => ensure!(l.is_empty(), "state", "provider {p} embeds {l:?} though its manager captures nothing"),
            Some(cap) => {
                ensure!(cap.len() >= l.len() && cap.iter().zip(&l).all(|(c, l)| c.0 == *l), "state", "provider {p} embeds {l:?}, which is not the beginning of what its manager captured: {cap:?}");
                lacks(p, mi, &l);
                let mut below = vec![p];
                while let Some(x) = below.pop() {
                    below.extend(&env.nodes[x].kids);
                    let f = &env.nodes[x];
                    if f.mgr == Some(mi) && x != p {
                        if let Node::Global { .. } = f.node {
                            let m = &asked(env, f)[0].1;
                            ensure!(cap[..l.len()].iter().any(|(_, t)| css::diff_escaped(t, &m.expect(None)).is_none()), "state-lacks", "provider {p} embeds {l:?}, which lacks the global style of node {x} below it");
                        }
                    }
                }
            }
        }
    }
}
fn exec(v: Value) {
    let p: Plan = plan(v);
    activate("C12");
    let mut seen = std::collections::HashSet::new();
    // Told apart by what they say.
    let sheets: Vec<Model> = p.sheets.into_iter().filter(|m| seen.insert(m.expect(None))).collect();
    if sheets.is_empty() || p.threads.iter().flat_map(|t| &t.renders).any(|r| r.mgrs.is_empty()) {
        return;
    }
    let sheets = Arc::new(sheets);
    let again = p.threads.first().and_then(|t| t.renders.first()).cloned();
    let (clerk, orders) = mpsc::channel();
    let mut clerk: Clerk = p.clerk.then_some(clerk);
    let mut bodies: Vec<rt::Body> = p
        .threads
        .into_iter()
        .map(|t| {
            let sheets = sheets.clone();
            let clerk = clerk.clone();
            Box::new(move || body(t, sheets, clerk)) as rt::Body
        })
        .collect();
    if clerk.take().is_some() {
        bodies.push(Box::new(move || {
            while let Ok((r, to)) = orders.recv() {
                read_early(r, &to);
            }
        }));
    }
    let ok = run::threads(&p.sched, bodies);
    ensure!(ok.iter().all(|x| *x), "thread-died", "a rendering thread died");
    // Afterwards another thread renders one of them, undisturbed.
    if let Some(mut r) = again {
        r.cancel = None;
        body(Th { rng: 5, drive: 5, renders: vec![r] }, sheets, None);
    }
}
pub const SCENARIO: Scenario = Scenario {
    id: "C12",
    draw,
    exec,
    quick_runs: 5000,
    rule: "a run is 1-3 threads, each rendering 1-3 component trees at once on the real Yew server renderer under a seeded executor that decides which render is polled and which suspension resumes; trees mix eleven ways to ask for a style, global styles, nested providers, suspended, panicking and cancelled parts; non-trivial when a fault was injected or several threads ran; distinct by the hash of its operations, faults and schedule",
};
