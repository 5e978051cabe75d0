//! C16 and C17: applications rendered in the browser.
use super::app::{self, Draw, Mg, Page, Step, N};
use super::*;
use crate::css::Model;
use crate::run;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    rng: u64,
    sheets: Vec<Model>,
    mgrs: Vec<Mg>,
    tree: Vec<N>,
    keyed: bool,
    steps: Vec<Step>,
    /// The page comes from a server: the seeds of its environment and of its executor.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    server: Option<(u64, u64)>,
    /// The server's styles are not in the head, but in an element of their own.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    inside: bool,
}
pub fn managers(r: &mut Rng) -> Vec<Mg> {
    // Told apart by their prefix from each other and from the default one.
    (0..r.range(1, 3)).map(|i| Mg { prefix: format!("{}{i}", r.pick(&["app", "größe", "x", "9"])), append: r.chance(2, 3), place: *r.pick(&[0, 0, 1, 2]) }).collect()
}
fn draw(r: &mut Rng, thorough: bool, media: u32, served: bool) -> Value {
    let n = r.range(1, 4);
    let sheets = Model::family(r, n, 2);
    let mgrs = managers(r);
    let wait = r.chance(1, 2);
    let (rng, keyed) = (r.next(), r.chance(1, 2));
    let server = served.then(|| (r.next(), r.next()));
    let mut d = Draw { sheets: sheets.len(), mgrs: mgrs.len(), wait, media, prepared_only: served, own: !served, r };
    let mut tree = d.kids(3, 4);
    if served {
        let m = d.r.below(d.mgrs);
        tree = vec![N { kind: app::Kind::Provider { m }, kids: tree, key: 0 }];
    }
    // What comes later is not rendered by the server.
    d.prepared_only = false;
    d.own = true;
    let n = d.r.range(3, if thorough { 50 } else { 25 });
    let edits = *d.r.pick(&[2, 5, 8]);
    let mut steps = d.steps(n, edits);
    if served && d.r.chance(2, 3) {
        let at = d.r.below(4);
        steps.insert(at, Step { op: app::Do::Settle, joined: false });
        steps.drain(..at);
    }
    let inside = served && d.r.chance(1, 4);
    serde_json::to_value(Plan { rng, sheets, mgrs, tree, keyed, steps, server, inside }).unwrap()
}
fn exec(v: Value) {
    let p: Plan = plan(v);
    let sheets = distinct(p.sheets.clone());
    if sheets.is_empty() || p.mgrs.is_empty() {
        run::violate("invalid-plan", "empty".into());
    }
    app::app(|a| {
        *a.sheets.borrow_mut() = sheets;
        a.keyed.set(p.keyed);
    });
    yew::set_custom_panic_hook(Box::new(|i| {
        if std::env::var_os("SIM_BACKTRACE").is_some() {
            eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    let next_key = app::set_tree(p.tree.clone());
    #[cfg(feature = "hydrate")]
    let served = p.server.map(|(env, drive)| app::serve(&p.mgrs, env, drive));
    #[cfg(not(feature = "hydrate"))]
    let served: Option<app::Served> = None;
    seed_rng(p.rng);
    let doc = web_sys::sim::the_document();
    let alerts = app::watch();
    let root = doc.create_element("div").unwrap();
    doc.body().unwrap().append_child(&root).unwrap();
    let mut given = Default::default();
    let mut given_home: web_sys::Node = doc.head().unwrap().into();
    if p.inside {
        given_home = doc.create_element("div").unwrap().into();
        doc.body().unwrap().insert_before(&given_home, Some(&root)).unwrap();
    }
    if let Some(s) = &served {
        run::op("deliver");
        web_sys::sim::fill(&given_home, &s.markup);
        web_sys::sim::fill(root.as_ref(), &s.html);
        given = app::Page::given(&given_home);
    }
    let homes = app::build_managers(&p.mgrs);
    let mut page = Page { root: root.clone(), mgrs: p.mgrs.clone(), homes, known: Default::default(), given, given_home, next_key, alerts, served, quiet: true, full: false };
    let r = yew::Renderer::<app::App>::with_root_and_props(root, app::AppProps {});
    run::op(if page.served.is_some() { "hydrate" } else { "mount" });
    let h = run::no_panic("mounting the application", || {
        #[cfg(feature = "hydrate")]
        if page.served.is_some() {
            return r.hydrate();
        }
        r.render()
    });
    if page.served.is_some() {
        // The application renders what the server rendered, first of all.
        app::micro();
    }
    for s in &p.steps {
        page.step(s);
    }
    page.settle();
    app::end(page, h);
}
pub const C16: Scenario = Scenario {
    id: "C16",
    draw: |r, t| draw(r, t, 0, false),
    exec,
    quick_runs: 20000,
    rule: "distinct histories of edits, pokes, resumed suspensions and tasks of an application (hash of the operations in order), with at least one suspension, task or other event injected",
};
pub const C17: Scenario = Scenario {
    id: "C17",
    draw: |r, t| {
        let served = cfg!(feature = "hydrate") && r.chance(1, 3);
        draw(r, t, 4, served)
    },
    exec,
    quick_runs: 20000,
    rule: "distinct histories of edits, media changes and reports, resumed suspensions and tasks of an application with media hooks (hash of the operations in order), with at least one change injected",
};
#[cfg(feature = "hydrate")]
pub const C18: Scenario = Scenario {
    id: "C18",
    draw: |r, t| {
        let media = *r.pick(&[0, 0, 1]);
        draw(r, t, media, true)
    },
    exec,
    quick_runs: 20000,
    rule: "distinct histories of a server's render and of hydration, edits, pokes, resumed suspensions, fetches and tasks of the page in the browser (hash of the operations in order)",
};
