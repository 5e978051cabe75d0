//! Random style sheets with a known meaning, and an independent reading of printed CSS.
//!
//! A `Model` is what the author of a sheet means. `text` writes it with arbitrary white space and
//! comments; `expect` says which declarations apply where once it is scoped to a class (or used
//! globally); `read` parses CSS text into the same form without using any code under test.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[serde(rename_all = "lowercase")]
pub enum Item {
    Decl(String, String),
    Block { sels: Vec<String>, body: Vec<Inner> },
    At { cond: String, body: Vec<Item> },
    Frames { name: String, frames: Vec<Frame> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Frame {
    pub at: String,
    pub decls: Vec<(String, String)>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[serde(rename_all = "lowercase")]
pub enum Inner {
    Decl(String, String),
    At { cond: String, body: Vec<Inner> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Model {
    pub items: Vec<Item>,
    /// Seed of the white space and comments of the written text; not part of the meaning.
    #[serde(default)]
    pub noise: u64,
}
/// One fact of a sheet: under this path of conditions, this declaration (or, for a @keyframes
/// rule, its mere presence).
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Fact {
    pub path: Vec<String>,
    pub decl: Option<(String, String)>,
}

const PROPS: &[&str] = &["color", "background-color", "width", "margin", "--my-var", "border-left", "content", "display", "transition", "-webkit-mask", "größe"];
const VALS: &[&str] = &[
    "red", "blue", "#FFF", "#fff", "10px", "calc(100% - 2px)", "0 1px 2px rgba(0, 0, 0, 0.5)", "url(img/a/b.png)", "url(\"x;y{z}.png\")",
    "var(--my-var, 3px)", "\"a\"", "\"a  b\"", "\"a b\"", "\"/* no comment */\"", "\"\"", "\"</style>\"", "\"</STYLE ><b>\"", "\"<!-- --> <style>\"",
    "\"quote \\\" ; } {\"", "\"日本語 é\"", "red !important", "1fr/2fr", "\"&amp; &lt; ' >\"", "\"\\\\\"", "\"]]>\"", "none", "\"</st\" \"yle>\"", "\"<\\/style>\"",
    "'a;b'", "'it\\'s \"quoted\" }'", "\"it's {\"", "\"\\201C\\201d\"", "-1px", "url(http://a.b/c.png)", "1px solid var(--a, rgb(1 2 3 / 50%))", "\"& :root\"", "'</style>'", "'a'", "'  '",
    "1px /* top */ 2px", "red /* ; } \" { it's */ !important", "\"a\"/\"b\"", "url(data:image/svg+xml;base64,PHN2Zz4+/+==)", "calc(1px /* ) */ + 2px)", "1px //**/ 2px", "url( a;b ) f(g(a;b))",
];
const SELS: &[&str] = &[
    ".a", ".b", ".a .b", "header", "footer > p", ":hover", "::before", "&:hover", "&.big &.small", ":root", ":root.dark", "& > *", ".x:not(.y)", "[title=\"a,b\"]",
    "[title=\"{x}\"]", "a:first-child", "*", "#id", "li + li", "& ~ .z", ":focus-within .k", ".ü", "&",
    ":not(.a, .b)", ":is(h1, h2) > p", "[title=\"a&b\"]", "[title='a,b']", "[title='{;}']", ".a\\,b", ".a\\&b:hover", "&[href=\":root\"]", ":not(:is(.a, [x=\"),(\"]), .b)", "html.dark &", "::part(x)",
    ":nth-child(2n + 1)", ".a + .b ~ .c", ".a:hover::before", "[title='it\\'s']", ".md\\:x\\{", "& + &", "a[href$=\".png\"]", "[x$='&']",
    ".a /* don't */ & .b", ".x /* & */ .y", "li /* , { */ > a", ":hover /* :root */ > b", "& /* ' */ > &.c", ":is(.a /* ) */ , .b)",
];
const CONDS: &[&str] = &[
    "@media screen", "@media screen and (max-width: 500px)", "@media (min-width: 10em) and (max-width: 20em)", "@media print",
    "@supports (display: grid)", "@supports not (display: grid)", "@container (min-width: 300px)", "@media screen, print",
    "@media print /* it's { */ and (min-width: 3px)", "@supports (display: /* ) */ grid)",
];
/// Writes the space after the name of an at-rule in another way.
fn at_rule(cond: &str, r: &mut Rng) -> String {
    let (name, rest) = cond.split_once(' ').unwrap();
    let gap = match r.below(8) {
        0 => "\n",
        1 => "\t ",
        2 => "\r\n\t",
        3 => " /* c */ ",
        4 if rest.starts_with('(') => "",
        _ => " ",
    };
    format!("{name}{gap}{rest}")
}

fn decl(r: &mut Rng) -> (String, String) {
    let v = if r.chance(1, 4) { format!("{}px", r.below(1000)) } else { r.pick(VALS).to_string() };
    (r.pick(PROPS).to_string(), v)
}
fn inner(r: &mut Rng, depth: usize, min: usize) -> Vec<Inner> {
    let n = r.range(min, 3);
    (0..n)
        .map(|_| {
            if depth > 0 && r.chance(1, 5) {
                Inner::At { cond: r.pick(CONDS).to_string(), body: inner(r, depth - 1, 0) }
            } else {
                let d = decl(r);
                Inner::Decl(d.0, d.1)
            }
        })
        .collect()
}
fn items(r: &mut Rng, depth: usize, min: usize, max: usize) -> Vec<Item> {
    let n = r.range(min, max);
    (0..n)
        .map(|_| match r.below(10) {
            0..=3 => {
                let d = decl(r);
                Item::Decl(d.0, d.1)
            }
            4..=6 => {
                let n = if r.chance(1, 3) { 2 } else { 1 };
                Item::Block { sels: (0..n).map(|_| r.pick(SELS).to_string()).collect(), body: inner(r, depth, 0) }
            }
            7 | 8 if depth > 0 => Item::At { cond: r.pick(CONDS).to_string(), body: items(r, depth - 1, 0, 3) },
            9 if r.chance(1, 2) => Item::Frames {
                name: r.pick(&["spin", "fade"]).to_string(),
                frames: (0..r.range(0, 3))
                    .map(|_| Frame {
                        at: r.pick(&["from", "to", "50%", "0%, 100%"]).to_string(),
                        decls: (0..r.range(0, 2)).map(|_| decl(r)).collect(),
                    })
                    .collect(),
            },
            _ => {
                let d = decl(r);
                Item::Decl(d.0, d.1)
            }
        })
        .collect()
}

#[derive(Clone, Copy)]
enum Leaf {
    Prop,
    Val,
    Sel,
    Cond,
    Name,
    At,
}
struct W<'a> {
    o: String,
    r: &'a mut Rng,
    plain: bool,
}
impl W<'_> {
    fn sp(&mut self) {
        if self.plain {
            return;
        }
        match self.r.below(12) {
            0 => self.o.push(' '),
            1 => self.o.push_str("\n\t"),
            2 => self.o.push_str("/* c */"),
            3 => self.o.push_str(" /**/\r\n "),
            4 => self.o.push_str("/* ; } \" { */"),
            _ => {}
        }
    }
    fn s(&mut self, s: &str) {
        self.o.push_str(s)
    }
    fn cond(&mut self, c: &str) {
        let c = if self.plain { c.to_string() } else { at_rule(c, self.r) };
        self.o.push_str(&c)
    }
    fn decl(&mut self, k: &str, v: &str, last_optional: bool) {
        self.sp();
        self.s(k);
        self.sp();
        self.s(":");
        if self.plain {
            self.s(" ");
        }
        self.sp();
        self.s(v);
        self.sp();
        if !(last_optional && !self.plain && self.r.chance(1, 2)) {
            self.s(";");
        }
        if self.plain {
            self.s("\n");
        }
    }
    fn inner(&mut self, b: &[Inner]) {
        for (i, x) in b.iter().enumerate() {
            match x {
                Inner::Decl(k, v) => self.decl(k, v, i + 1 == b.len()),
                Inner::At { cond, body } => {
                    self.sp();
                    self.cond(cond);
                    self.s(" {");
                    self.inner(body);
                    self.s("}");
                }
            }
        }
        self.sp();
    }
    fn items(&mut self, b: &[Item]) {
        for x in b {
            match x {
                Item::Decl(k, v) => self.decl(k, v, false),
                Item::Block { sels, body } => {
                    self.sp();
                    for (i, s) in sels.iter().enumerate() {
                        if i > 0 {
                            self.s(", ");
                        }
                        self.sp();
                        self.s(s);
                    }
                    self.s(" {");
                    self.inner(body);
                    self.s("}");
                }
                Item::At { cond, body } => {
                    self.sp();
                    self.cond(cond);
                    self.s(" {");
                    self.items(body);
                    self.s("}");
                }
                Item::Frames { name, frames } => {
                    self.sp();
                    self.s("@keyframes ");
                    self.s(name);
                    self.s(" {");
                    for f in frames {
                        self.sp();
                        self.s(&f.at);
                        self.s(" {");
                        for (i, (k, v)) in f.decls.iter().enumerate() {
                            self.decl(k, v, i + 1 == f.decls.len());
                        }
                        self.s("}");
                    }
                    self.s("}");
                }
            }
        }
        self.sp();
    }
}

impl Model {
    pub fn draw(r: &mut Rng, max: usize) -> Model {
        Model { items: items(r, 2, 1, max), noise: r.next() }
    }
    /// A long or deeply nested sheet.
    pub fn large(r: &mut Rng) -> Model {
        let (depth, n) = *r.pick(&[(2, 30), (1, 60), (1, 120), (6, 10), (9, 4), (2, 1)]);
        let mut m = Model { items: items(r, depth, n, n + 3), noise: r.next() };
        if n == 1 {
            // Many levels, mostly of the same conditions.
            let a = r.pick(CONDS).to_string();
            m.items = items(r, 1, 1, 3);
            for _ in 0..r.range(8, 24) {
                let cond = if r.chance(1, 3) { r.pick(CONDS).to_string() } else { a.clone() };
                m.items = vec![Item::At { cond, body: std::mem::take(&mut m.items) }];
                if r.chance(1, 4) {
                    let d = decl(r);
                    m.items.insert(r.below(2), Item::Decl(d.0, d.1));
                }
            }
        }
        if r.chance(1, 3) {
            // One line, as a build tool would write it.
            m.noise = 0;
        }
        m
    }
    pub fn simple(r: &mut Rng) -> Model {
        let d = decl(r);
        Model { items: vec![Item::Decl(d.0, d.1)], noise: 0 }
    }
    /// `n` models with pairwise different meaning, several of them near-identical to others.
    pub fn family(r: &mut Rng, n: usize, max: usize) -> Vec<Model> {
        let mut v: Vec<Model> = vec![];
        if r.chance(1, 25) {
            v.push(Model::large(r));
        }
        while v.len() < n {
            let m = if !v.is_empty() && r.chance(1, 2) {
                let b = r.below(v.len());
                v[b].near(r)
            } else {
                Model::draw(r, max)
            };
            if !v.iter().any(|x| x.items == m.items) {
                v.push(m);
            }
        }
        v
    }
    /// A sheet that differs as little as possible.
    pub fn near(&self, r: &mut Rng) -> Model {
        let mut m = self.clone();
        m.noise = if r.chance(1, 2) { m.noise } else { r.next() };
        match r.below(9) {
            5 | 6 => {
                // Anywhere in it.
                let n = m.leaves(&mut |_, _| ());
                let (at, mut i) = (r.below(n), 0);
                m.leaves(&mut |kind, s| {
                    if i == at {
                        let old = s.clone();
                        for _ in 0..4 {
                            *s = match kind {
                                Leaf::Prop => r.pick(PROPS).to_string(),
                                Leaf::Val => decl(r).1,
                                Leaf::Sel => r.pick(SELS).to_string(),
                                Leaf::Cond => r.pick(CONDS).to_string(),
                                Leaf::Name => format!("{s}x"),
                                Leaf::At => r.pick(&["from", "to", "50%", "0%, 100%"]).to_string(),
                            };
                            if *s != old {
                                break;
                            }
                        }
                    }
                    i += 1;
                });
            }
            7 => {
                // Another sheet with the same text when it is global, or when it is scoped.
                let i = r.below(m.items.len());
                m.items[i] = match &m.items[i] {
                    Item::Decl(k, v) => Item::Block { sels: vec![r.pick(&["&", ":root"]).to_string()], body: vec![Inner::Decl(k.clone(), v.clone())] },
                    Item::Block { sels, body } => {
                        let mut sels = sels.clone();
                        if r.chance(1, 2) { sels.reverse() } else { sels = sels.iter().map(|s| if s.contains(['&', ':', '\\', '"', '\'', '(']) { s.clone() } else { format!("& {s}") }).collect() }
                        Item::Block { sels, body: body.clone() }
                    }
                    Item::At { cond, body } => Item::At { cond: cond.clone(), body: body.iter().rev().cloned().collect() },
                    Item::Frames { name, frames } => Item::Frames { name: name.clone(), frames: frames.iter().rev().cloned().collect() },
                };
            }
            0 if m.items.len() > 1 => m.items.reverse(),
            1 if m.items.len() > 1 => {
                let i = r.below(m.items.len());
                m.items.remove(i);
            }
            2 => {
                let i = r.below(m.items.len());
                let x = m.items[i].clone();
                m.items.push(x);
            }
            _ => {
                // Change one value, keeping its length where possible.
                fn tweak(s: &mut String, r: &mut Rng) {
                    let alts: &[(&str, &str)] = &[("red", "tan"), ("blue", "navy"), ("#FFF", "#fff"), ("#fff", "#FFF"), ("\"a  b\"", "\"a b\""), ("\"a b\"", "\"a  b\""), ("\"/* no comment */\"", "\"\""), ("\"\"", "\"/**/\""), ("none", "auto"), ("\"a\"", "\"A\""), ("'a'", "\"a\""), ("'  '", "' '"), ("'a;b'", "'a; b'")];
                    for (a, b) in alts {
                        if s == a {
                            *s = b.to_string();
                            return;
                        }
                    }
                    *s = format!("{}px", 1000 + r.below(9000));
                }
                let i = r.below(m.items.len());
                match &mut m.items[i] {
                    Item::Decl(_, v) => tweak(v, r),
                    Item::Block { sels, body } => match body.last_mut() {
                        Some(Inner::Decl(_, v)) => tweak(v, r),
                        _ => sels.push(".near".into()),
                    },
                    Item::At { cond, .. } => *cond = r.pick(CONDS).to_string(),
                    Item::Frames { name, .. } => name.push('2'),
                }
            }
        }
        if m.items.is_empty() {
            m.items.push(Item::Decl("color".into(), "green".into()));
        }
        m
    }
    /// Calls back with every string in it; returns how many there are.
    fn leaves(&mut self, f: &mut dyn FnMut(Leaf, &mut String)) -> usize {
        fn decl(n: &mut usize, f: &mut dyn FnMut(Leaf, &mut String), k: &mut String, v: &mut String) {
            f(Leaf::Prop, k);
            f(Leaf::Val, v);
            *n += 2;
        }
        fn inner(n: &mut usize, f: &mut dyn FnMut(Leaf, &mut String), b: &mut [Inner]) {
            for x in b {
                match x {
                    Inner::Decl(k, v) => decl(n, f, k, v),
                    Inner::At { cond, body } => {
                        f(Leaf::Cond, cond);
                        *n += 1;
                        inner(n, f, body);
                    }
                }
            }
        }
        fn items(n: &mut usize, f: &mut dyn FnMut(Leaf, &mut String), b: &mut [Item]) {
            for x in b {
                match x {
                    Item::Decl(k, v) => decl(n, f, k, v),
                    Item::Block { sels, body } => {
                        for s in sels.iter_mut() {
                            f(Leaf::Sel, s);
                            *n += 1;
                        }
                        inner(n, f, body);
                    }
                    Item::At { cond, body } => {
                        f(Leaf::Cond, cond);
                        *n += 1;
                        items(n, f, body);
                    }
                    Item::Frames { name, frames } => {
                        f(Leaf::Name, name);
                        *n += 1;
                        for x in frames {
                            f(Leaf::At, &mut x.at);
                            *n += 1;
                            for (k, v) in &mut x.decls {
                                decl(n, f, k, v);
                            }
                        }
                    }
                }
            }
        }
        let mut n = 0;
        items(&mut n, f, &mut self.items);
        n
    }
    pub fn text(&self) -> String {
        self.text_with(self.noise)
    }
    pub fn text_with(&self, noise: u64) -> String {
        let mut r = Rng::new(noise);
        let mut w = W { o: String::new(), r: &mut r, plain: noise == 0 };
        w.items(&self.items);
        w.o
    }
    /// What makes two sheets the same sheet.
    pub fn key(&self) -> String {
        serde_json::to_string(&self.items).unwrap()
    }
    pub fn expect(&self, class: Option<&str>) -> Vec<Fact> {
        let mut o = vec![];
        /// Puts `to` in place of & (and :root) wherever that is a selector.
        fn current(s: &str, to: &str, root: bool) -> Option<String> {
            let c: Vec<char> = s.chars().collect();
            let (mut o, mut i, mut q, mut hit) = (String::new(), 0, '\0', false);
            while i < c.len() {
                if c[i] == '\\' {
                    o.push(c[i]);
                    i += 1;
                    if i < c.len() {
                        o.push(c[i]);
                    }
                } else if q != '\0' {
                    o.push(c[i]);
                    if c[i] == q {
                        q = '\0';
                    }
                } else if c[i..].starts_with(&['/', '*']) {
                    // Comments are no part of the selector.
                    i += 2;
                    while i < c.len() && !c[i..].starts_with(&['*', '/']) {
                        i += 1;
                    }
                    i += 1;
                    o.push(' ');
                } else if c[i] == '&' {
                    o.push_str(to);
                    hit = true;
                } else if root && c[i..].starts_with(&[':', 'r', 'o', 'o', 't']) {
                    o.push_str(to);
                    hit = true;
                    i += 4;
                } else {
                    if c[i] == '"' || c[i] == '\'' {
                        q = c[i];
                    }
                    o.push(c[i]);
                }
                i += 1;
            }
            hit.then_some(o)
        }
        fn sel1(s: &str, class: Option<&str>) -> String {
            match class {
                Some(c) => {
                    let c = format!(".{c}");
                    if let Some(x) = current(s, &c, true) {
                        x
                    } else if s.starts_with(':') {
                        format!("{c}{s}")
                    } else {
                        format!("{c} {s}")
                    }
                }
                None => current(s, ":root", false).unwrap_or_else(|| s.to_string()),
            }
        }
        let own = class.map(|c| format!(".{c}")).unwrap_or_else(|| ":root".into());
        fn inn(o: &mut Vec<Fact>, path: &[String], sel: &str, b: &[Inner]) {
            for x in b {
                match x {
                    Inner::Decl(k, v) => {
                        let mut p = path.to_vec();
                        p.push(norm(sel));
                        o.push(Fact { path: p, decl: Some((norm(k), norm(v))) });
                    }
                    Inner::At { cond, body } => {
                        let mut p = path.to_vec();
                        p.push(norm(cond));
                        inn(o, &p, sel, body);
                    }
                }
            }
        }
        fn its(o: &mut Vec<Fact>, path: &[String], b: &[Item], class: Option<&str>, own: &str) {
            for x in b {
                match x {
                    Item::Decl(k, v) => inn(o, path, own, &[Inner::Decl(k.clone(), v.clone())]),
                    Item::Block { sels, body } => {
                        let s: Vec<String> = sels.iter().map(|s| sel1(s, class)).collect();
                        inn(o, path, &s.join(", "), body);
                    }
                    Item::At { cond, body } => {
                        let mut p = path.to_vec();
                        p.push(norm(cond));
                        its(o, &p, body, class, own);
                    }
                    Item::Frames { name, frames } => {
                        let mut p = path.to_vec();
                        p.push(norm(&format!("@keyframes {name}")));
                        o.push(Fact { path: p.clone(), decl: None });
                        for f in frames {
                            let mut q = p.clone();
                            q.push(norm(&f.at));
                            for (k, v) in &f.decls {
                                o.push(Fact { path: q.clone(), decl: Some((norm(k), norm(v))) });
                            }
                        }
                    }
                }
            }
        }
        its(&mut o, &[], &self.items, class, &own);
        o
    }
    /// As deep as it gets, and nothing of it is ever closed.
    pub fn unclosed(&self, r: &mut Rng) -> String {
        let t = self.text();
        let open = *r.pick(&[".a(", ".a[", "@media (", "@media print {", ".a { @media print {", "(", "{", "color: ("]);
        let (head, part) = open.split_at(open.len() - 1);
        let n = *r.pick(&[3, 30, 90, 400, 3000]);
        match open.contains('{') {
            true => format!("{t} {}", open.repeat(n)),
            false => format!("{t} {head}{}", part.repeat(n)),
        }
    }
    /// A text that no CSS sheet grammar accepts.
    pub fn malformed(&self, r: &mut Rng) -> String {
        let t = self.text();
        match r.below(25) {
            0 => format!("{t} }}"),
            1 => format!("{t} colour"),
            2 => format!("{t} .open {{ color: red;"),
            3 => format!("{t} content: \"never closed;"),
            4 => format!("}} {t}"),
            5 => format!("{t} colour; .x {{ color: red; }}"),
            6 => format!("color red; {t} .x {{ color: red; }}"),
            7 => format!("{t} .a }} .b {{ color: red; }}"),
            8 => format!("{t} @media print; .a {{ color: red; }}"),
            9 => format!(".a, {{ color: red; }} {t}"),
            10 => format!("{t} .a:not(.b {{ color: red; }}"),
            11 => format!("{t} .a @media print {{ color: red; }}"),
            12 => format!("{t} content: 'never closed;"),
            13 => format!("/* never closed {{ {t}").replace("*/", ""),
            14 => format!("{t} .é {{ größe: \"日本"),
            15 => format!(".a {{ color: red; {t} }} }}"),
            16 => format!("{t} .a,, .b {{ color: red; }}"),
            17 => format!("@media print }} .a {{ color: red; }} {t}"),
            18 => self.unclosed(r),
            19 => format!("{t} @mediaprint {{ .a {{ color: red; }} }}"),
            20 => format!("{t} color: red /* never closed; }}"),
            21 => format!("{t} .a {{ color: red /; }}"),
            22 => format!("{t} @media (min-width: 3px {{ .a {{ color: red; }} }}"),
            _ => format!("{t} @media screen {{ .x {{ color: red; }}"),
        }
    }
}

/// Collapses white space and comments outside strings, and drops it where it never means anything: around
/// commas and combinators and just inside brackets, and around a colon within brackets.
pub fn norm(s: &str) -> String {
    let mut o = String::new();
    let mut q: Option<char> = None;
    let mut esc = false;
    let mut gap = false;
    let mut depth = 0i32;
    let tight = |c: char, depth: i32| matches!(c, ',' | '>' | '~') || (c == ':' && depth > 0);
    let s = s.trim();
    let mut skip = 0;
    for (i, c) in s.char_indices() {
        if i < skip {
            continue;
        }
        if let Some(x) = q {
            o.push(c);
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == x {
                q = None;
            }
            continue;
        }
        if c == '/' && !esc && s[i..].starts_with("/*") {
            skip = s[i + 2..].find("*/").map_or(s.len(), |e| i + e + 4);
            gap = true;
            continue;
        }
        if c.is_ascii_whitespace() && !esc {
            gap = true;
            continue;
        }
        if gap {
            let last = o.chars().last().unwrap_or(' ');
            if !(tight(c, depth) || tight(last, depth) || c == ')' || c == ']' || last == '(' || last == '[') {
                o.push(' ');
            }
            gap = false;
        }
        if esc {
            esc = false;
            o.push(c);
            continue;
        }
        match c {
            '\\' => esc = true,
            '"' | '\'' => q = Some(c),
            '(' | '[' => {
                if matches!(&*o, "@media" | "@supports" | "@container") {
                    o.push(' ');
                }
                depth += 1
            }
            ')' | ']' => depth -= 1,
            _ => {}
        }
        o.push(c);
    }
    o
}

/// Reads printed CSS. Errors describe text that is not well-formed.
pub fn read(css: &str) -> Result<Vec<Fact>, String> {
    let c: Vec<char> = css.chars().collect();
    let mut i = 0;
    let mut path: Vec<String> = vec![];
    let mut buf = String::new();
    let mut out = vec![];
    let mut flush = |buf: &mut String, path: &[String]| -> Result<(), String> {
        let s = buf.trim().to_string();
        buf.clear();
        if s.is_empty() {
            return Ok(());
        }
        let (k, v) = s.split_once(':').ok_or_else(|| format!("not a declaration: {s:?}"))?;
        if path.is_empty() {
            return Err(format!("declaration outside any block: {s:?}"));
        }
        out.push(Fact { path: path.to_vec(), decl: Some((norm(k), norm(v))) });
        Ok(())
    };
    let mut marks: Vec<(usize, Fact)> = vec![];
    let mut n_out = 0usize;
    // Brackets that are open.
    let mut open = 0usize;
    while i < c.len() {
        match c[i] {
            '"' | '\'' => {
                let q = c[i];
                buf.push(q);
                i += 1;
                loop {
                    if i >= c.len() {
                        return Err("unterminated string".into());
                    }
                    buf.push(c[i]);
                    if c[i] == '\\' {
                        i += 1;
                        if i < c.len() {
                            buf.push(c[i]);
                        }
                    } else if c[i] == q {
                        break;
                    }
                    i += 1;
                }
            }
            '\\' => {
                buf.push(c[i]);
                i += 1;
                if i < c.len() {
                    buf.push(c[i]);
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => {
                let mut j = i + 2;
                while j + 1 < c.len() && !(c[j] == '*' && c[j + 1] == '/') {
                    j += 1;
                }
                if j + 1 >= c.len() {
                    return Err("unterminated comment".into());
                }
                buf.push(' ');
                i = j + 1;
            }
            '{' => {
                open = 0;
                let p = norm(&buf);
                buf.clear();
                if p.is_empty() {
                    return Err("block without a prelude".into());
                }
                path.push(p.clone());
                if p.starts_with("@keyframes") {
                    marks.push((n_out, Fact { path: path.clone(), decl: None }));
                }
            }
            '}' => {
                open = 0;
                let had = !buf.trim().is_empty();
                flush(&mut buf, &path)?;
                n_out += had as usize;
                if path.pop().is_none() {
                    return Err("unbalanced }".into());
                }
            }
            '(' | ')' => {
                open = if c[i] == '(' { open + 1 } else { open.saturating_sub(1) };
                buf.push(c[i])
            }
            ';' if open == 0 => {
                let had = !buf.trim().is_empty();
                flush(&mut buf, &path)?;
                n_out += had as usize;
            }
            x => buf.push(x),
        }
        i += 1;
    }
    if !path.is_empty() {
        return Err("unclosed block".into());
    }
    if !buf.trim().is_empty() {
        return Err(format!("trailing text {:?}", buf.trim()));
    }
    for (k, (at, f)) in marks.into_iter().enumerate() {
        out.insert(at + k, f);
    }
    Ok(out)
}
/// `None` when the printed text means what was asked for, else the difference.
pub fn diff(printed: &str, want: &[Fact]) -> Option<String> {
    compare(read(printed), want)
}
/// The same for CSS that was written into a page, where characters may have been escaped.
pub fn diff_escaped(printed: &str, want: &[Fact]) -> Option<String> {
    compare(read(printed).map(unescaped), &unescaped(want.to_vec()))
}
fn unescaped(f: Vec<Fact>) -> Vec<Fact> {
    let u = |s: String| norm(&crate::markup::unescape(&s));
    f.into_iter().map(|f| Fact { path: f.path.into_iter().map(u).collect(), decl: f.decl.map(|(k, v)| (u(k), u(v))) }).collect()
}
fn compare(got: Result<Vec<Fact>, String>, want: &[Fact]) -> Option<String> {
    match got {
        Err(e) => Some(format!("not well-formed CSS ({e})")),
        Ok(got) if got == want => None,
        Ok(got) => {
            let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            Some(format!("fact {i}: got {:?}, want {:?} ({} facts, want {})", got.get(i), want.get(i), got.len(), want.len()))
        }
    }
}
