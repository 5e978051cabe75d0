#!/usr/bin/env python3
"""Writes sim/macros/src/lib.rs: macro uses with their intended meaning, some with interpolated
expressions, each in the literal and (where the syntax allows it) the inline form."""
import json, random, os
R = random.Random(20240611)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Site:
    def __init__(self):
        self.n = 0
        self.kinds = []
    def slot(self, kind):
        k = self.n
        self.n += 1
        self.kinds.append(kind)
        return k
def ph(k): return f"\u27e6{k}\u27e7"

# Each part: (literal text, inline tokens or None, meaning)
STATIC_VALS = [
    ("red", "red", "red"), ("0 auto", "0 auto", "0 auto"), ("medium dashed green",) * 3,
    ("3px 3px red, -1rem 0 0.4rem olive",) * 3, ("rgba(0, 0, 0, 15%)",) * 3, ("#9799a7",) * 3,
    ('url("images/pdf.png")',) * 3, ('" (" attr(x) ")"',) * 3, ('"a  b"',) * 3, ('"</style>"',) * 3,
    ("calc(100% - 2px)", None, "calc(100% - 2px)"), ("red !important", None, "red !important"), ('"$${}"', None, '"${}"'),
    ("10px",) * 3, ('"日本語"',) * 3, ("inset 0 1px 2px blue",) * 3,
]
PROPS = ["color", "background-color", "margin", "--my-var", "border-left", "-webkit-mask", "content", "transition"]
def value(s, dyn):
    if not dyn:
        return R.choice(STATIC_VALS)
    c = R.randrange(7)
    old = [k for k, x in enumerate(s.kinds) if x == "v"]
    if old and R.random() < .12:
        k = R.choice(old)
        return ("x(${v%d}) ${v%d}" % (k, k), None, "x(%s) %s" % (ph(k), ph(k)))
    k = s.slot("v")
    if c <= 2: return ("${v%d}" % k, "${v(%d)}" % k, ph(k))
    if c == 3: return ("rotate(${v%d})" % k, "rotate(${v(%d)})" % k, "rotate(%s)" % ph(k))
    if c == 4:
        j = s.slot("v")
        return ("rgb(${v%d}, 3, ${v%d})" % (k, j), "rgb(${v(%d)}, 3, ${v(%d)})" % (k, j), "rgb(%s, 3, %s)" % (ph(k), ph(j)))
    if c == 5:
        j = s.slot("v")
        return ("color ${v%d} ease, margin ${v%d}" % (k, j), None, "color %s ease, margin %s" % (ph(k), ph(j)))
    return ("solid ${v%d} 1px" % k, None, "solid %s 1px" % ph(k))
def decl(s, dyn):
    p = R.choice(PROPS)
    if dyn and R.random() < .08:
        k = s.slot("p")
        v = value(s, R.random() < .5)
        return (None, None if v[1] is None else "${v(%d)}: %s;" % (k, v[1]), (ph(k), v[2]))
    v = value(s, dyn and R.random() < .6)
    return ("%s: %s;" % (p, v[0]), None if v[1] is None else "%s: %s;" % (p, v[1]), (p, v[2]))
STATIC_SELS = [(x, x, x) for x in ["&:hover", ".a", "header", "footer > p", ":hover", "::before", "& p", "& > *", "#id", "&.big", '[title="a,b"]', "a:first-child", "& ~ nav", ".x:not(.y)", "article span"]] + [("li + li", None, "li + li"), (".a .b", None, ".a .b"), (":root.dark", ":root.dark", ":root.dark")]
def sel(s, dyn):
    if not dyn:
        return R.choice(STATIC_SELS)
    k = s.slot("n")
    c = R.randrange(6)
    if c == 0: return (".${v%d}" % k, ".${v(%d)}" % k, "." + ph(k))
    if c == 1: return ("&.${v%d}:hover" % k, "&.${v(%d)}:hover" % k, "&.%s:hover" % ph(k))
    if c == 2: return (".p > .${v%d}" % k, ".p > .${v(%d)}" % k, ".p > .%s" % ph(k))
    s.kinds[k] = "s"
    if c == 3: return ("a ${v%d}" % k, None, "a " + ph(k))
    return ("${v%d}" % k, "${v(%d)}" % k, ph(k))
CONDS = [(x, x, x) for x in ["@media screen", "@media print", "@supports (display: grid)", "@media screen and (max-width: 500px)", "@media not all and (monochrome)", "@supports not (display: grid)", "@supports (display: grid) and (not (display: inline-grid))", "@supports selector(a:not(.b))", "@media (min-width: 3px) and (max-width: 9px), print"]]
def cond(s, dyn):
    if not dyn:
        return R.choice(CONDS)
    k = s.slot("c")
    if R.random() < .4:
        return ("@media screen and ${v%d}" % k, None, "@media screen and " + ph(k))
    return ("@media ${v%d}" % k, "@media ${v(%d)}" % k, "@media " + ph(k))
def join(parts, sep):
    lit = None if any(p[0] is None for p in parts) else sep.join(p[0] for p in parts)
    inl = None if any(p[1] is None for p in parts) else sep.join(p[1] for p in parts)
    return lit, inl
def block(s, dyn):
    sels = [sel(s, dyn and R.random() < .4) for _ in range(R.choice([1, 1, 2]))]
    body, model = [], []
    for _ in range(R.randint(1, 3)):
        if R.random() < .15:
            c = cond(s, dyn and R.random() < .5)
            d = decl(s, dyn)
            body.append((None if d[0] is None else "%s { %s }" % (c[0], d[0]), None if c[1] is None or d[1] is None else "%s { %s }" % (c[1], d[1])))
            model.append({"at": {"cond": c[2], "body": [{"decl": d[2]}]}})
        else:
            d = decl(s, dyn)
            body.append(d)
            model.append({"decl": d[2]})
    sl, si = join(sels, ", ")
    bl, bi = join(body, " ")
    return (None if bl is None or sl is None else "%s { %s }" % (sl, bl), None if bi is None or si is None else "%s { %s }" % (si, bi), {"block": {"sels": [x[2] for x in sels], "body": model}})
def item(s, dyn, depth=1):
    c = R.random()
    if c < .45:
        d = decl(s, dyn)
        return (d[0], d[1], {"decl": d[2]})
    if c < .8 or depth == 0:
        if R.random() < .12:
            d = decl(s, False)
            kinds = list(s.kinds)
            e = decl(s, dyn)
            if e[0] is None:
                s.kinds, s.n = kinds, len(kinds)
            else:
                return ("@keyframes spin { from { %s } 50%% { %s } }" % (d[0], e[0]), None, {"frames": {"name": "spin", "frames": [{"at": "from", "decls": [d[2]]}, {"at": "50%", "decls": [e[2]]}]}})
        return block(s, dyn)
    c = cond(s, dyn and R.random() < .6)
    inner = [item(s, dyn, depth - 1) for _ in range(R.randint(1, 2))]
    l, i = join(inner, " ")
    return (None if l is None or c[0] is None else "%s { %s }" % (c[0], l), None if i is None or c[1] is None else "%s { %s }" % (c[1], i), {"at": {"cond": c[2], "body": [x[2] for x in inner]}})

out, sites = [], []
want = [("static", 14), ("dyn", 44)]
for name, count in want:
    made = 0
    while made < count:
        s = Site()
        items = [item(s, name == "dyn") for _ in range(R.randint(1, 4))]
        if name == "dyn" and s.n == 0:
            continue
        l, i = join(items, " ")
        if l is None and i is None or s.n > 9 or made % 3 and i is None:
            continue
        # Frames (keyframes) cannot hold placeholders twice etc.; all fine.
        sites.append((s, l, i, {"items": [x[2] for x in items]}, None))
        made += 1
KINDS = [("stylist::css!", "Made::Source"), ("stylist::ast::sheet!", "Made::Sheet"), ("stylist::style!", "Made::Style"), ("stylist::global_style!", "Made::Global")]
consts = "\n    ".join(f"pub static AT_{k}: NowAt = NowAt({k});\n    pub const C_{k}: Now<{k}> = Now;" for k in range(9))
o = ['''// Generated by tools/gen_macros.py.
//! Macro uses with their intended meaning. `v(k)` is the interpolated expression number k.
#![allow(clippy::all)]
use std::fmt;
use stylist::ast::Sheet;
use stylist::{GlobalStyle, Style, StyleSource};

pub struct V<'a>(pub Box<dyn Fn(&mut fmt::Formatter<'_>) -> fmt::Result + 'a>);
impl fmt::Display for V<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (self.0)(f)
    }
}
pub trait Me: Sized {
    fn me(self) -> Self {
        self
    }
}
impl Me for V<'_> {}
#[allow(unused)]
fn me<T>(t: T) -> T {
    t
}
trait Yes {
    fn me(&self) -> bool {
        true
    }
}
impl<'a> Yes for dyn Fn(usize) -> V<'a> + 'a {}
/// A constant expression whose value changes: what v(K) of the macro use being reached shows.
#[derive(Clone, Copy, Default)]
pub struct Now<const K: usize>;
pub struct NowAt(usize);
static NOW: [NowAt; 9] = [NowAt(0), NowAt(1), NowAt(2), NowAt(3), NowAt(4), NowAt(5), NowAt(6), NowAt(7), NowAt(8)];
pub mod consts {
    use super::{Now, NowAt};
    @CONSTS@
}
use consts::*;
pub trait HasNow {
    const VALUE: Self;
}
impl<const K: usize> HasNow for Now<K> {
    const VALUE: Self = Now;
}
@CURS@
pub trait At {
    fn at(self) -> NowAt;
}
impl At for usize {
    fn at(self) -> NowAt {
        NowAt(self)
    }
}
fn now(k: usize) -> NowAt {
    NowAt(k)
}
const fn const_now(k: usize) -> NowAt {
    NowAt(k)
}
pub struct Pair<A>(pub A, pub usize);
impl<A: Clone> std::ops::Add for Pair<A> {
    type Output = A;
    fn add(self, _: Self) -> A {
        self.0
    }
}
impl<const K: usize> std::ops::Neg for Now<K> {
    type Output = Now<K>;
    fn neg(self) -> Now<K> {
        self
    }
}
macro_rules! now {
    ($k:expr) => {
        NowAt($k)
    };
}
impl<const K: usize> Me for Now<K> {}
impl<const K: usize> fmt::Display for Now<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        NowAt(K).fmt(f)
    }
}
impl fmt::Display for NowAt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let v = CURRENT.with(|c| c.get()).expect("no current macro use");
        let v = unsafe { &*v };
        v(self.0 + 100).fmt(f)
    }
}
type Dyn = dyn Fn(usize) -> V<'static>;
thread_local! { static CURRENT: std::cell::Cell<Option<*const Dyn>> = const { std::cell::Cell::new(None) }; }
struct Enter(Option<*const Dyn>);
impl Drop for Enter {
    fn drop(&mut self) {
        CURRENT.with(|c| c.set(self.0));
    }
}
fn enter<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Enter {
    let v: *const Dyn = unsafe { std::mem::transmute(v) };
    Enter(CURRENT.with(|c| c.replace(Some(v))))
}
pub enum Made {
    Source(StyleSource),
    Sheet(Sheet),
    Style(stylist::Result<Style>),
    Global(stylist::Result<GlobalStyle>),
    /// The macro use did not compile.
    #[allow(unused)]
    Rejected(&'static str),
}
pub type F = for<'a> fn(&'a dyn Fn(usize) -> V<'a>) -> Made;
pub struct Site {
    /// Items of the sheet (JSON); \u27e6k\u27e7 stands for what v(k) displays.
    pub model: &'static str,
    /// What each v(k) has to be: v value, p property, n class name, s selector, c condition.
    pub slots: &'static str,
    pub makes: &'static [F],
}
'''.replace("@CONSTS@", consts).replace("@CURS@", "".join(f"fn cur{k}() -> NowAt {{\n    NowAt({k})\n}}\n" for k in range(9)).rstrip())]
SHAPES = ["v(%d)"] * 3 + ["(v(%d))", "{ v(%d) }", "&v(%d)", "me(v(%d))", 'format!("{}", v(%d))', "local%d", "local%d", "v(%d).to_string()", "if v.me() { v(%d) } else { v(99) }",
          "Now::<%d>", "Now::<%d>", "crate::Now::<%d>.me()", "NOW[%d]", "AT_%d", "AT_%d", "C_%d", "C_%d", "consts::AT_%d", "&AT_%d", "C_%d.me()", "now(%d)", "const_now(%d)", "Pair(C_%d, 1).0", "Pair(C_%d, 0) + Pair(Now, 1)", "-C_%d", "now!(%d)",
          "<Now<%d> as HasNow>::VALUE", "Now::<%d>::VALUE", "*&C_%d", "{ static S: NowAt = NowAt(%d); &S }", "{ const S: NowAt = NowAt(%d); S }", "(|| NowAt(%d))()", "[NowAt(%d)][0]", "unsafe { NOW.get_unchecked(%d) }",
          "NOW[%d..].first().unwrap()", "if true { C_%d } else { Now }", "match 1 { _ => v(%d) }", "cur%d()", "cur%d()", "Now::<%d>::default()", "unsafe { cur%d() }", "(C_%d,).0", "[C_%d; 2][1]", "Pair { 0: C_%d, 1: 2 }.0", "{ C_%d }", "const { NowAt(%d) }", "'a: { break 'a C_%d }", "std::convert::identity(C_%d)", "(&&C_%d)", "&mut Now::<%d>", "C_%d as Now<%d>", "AT_%d.0.max(0).at()", "AT_%d.to_string().as_str()", "Box::new(v(%d))", "loop { break v(%d) }"]
import re
def shape(k, used, forced=None):
    sh = forced or R.choice(SHAPES)
    if sh.startswith("local"): used["lets"].append(k)
    if re.search(r"\bNow|NOW|AT_|C_|\bnow|const_now|\bcur", sh): used["now"] = True
    return sh.replace("%d", str(k))
table = []
def single(sh, pos):
    """A sheet with one interpolated expression, alone in its place."""
    s = Site()
    k = s.slot(pos)
    P = ph(k)
    l, i, m = {
        "v": ("color: ${v0};", "color: ${v(0)};", [{"decl": ["color", P]}]),
        "p": (None, "${v(0)}: red;", [{"decl": [P, "red"]}]),
        "n": (".${v0}:hover { margin: 0 auto; }", ".${v(0)}:hover { margin: 0 auto; }", [{"block": {"sels": [".%s:hover" % P], "body": [{"decl": ["margin", "0 auto"]}]}}]),
        "s": (".a, ${v0} { margin: 0 auto; }", ".a, ${v(0)} { margin: 0 auto; }", [{"block": {"sels": [".a", P], "body": [{"decl": ["margin", "0 auto"]}]}}]),
        "c": ("@media ${v0} { color: red; }", "@media ${v(0)} { color: red; }", [{"at": {"cond": "@media " + P, "body": [{"decl": ["color", "red"]}]}}]),
    }[pos]
    sites.append((s, l, i, {"items": m}, sh))
def multi(sh, n):
    """Literal sheets that use one argument in several places."""
    s = Site()
    k = s.slot("v" if n < 2 else "n")
    P = ph(k)
    l, m = [
        ("color: ${v0}; margin: 1px ${v0} 2px;", [{"decl": ["color", P]}, {"decl": ["margin", "1px %s 2px" % P]}]),
        ("color: x(${v0}) ${v0}; @media print { .a { content: ${v0}; } }", [{"decl": ["color", "x(%s) %s" % (P, P)]}, {"at": {"cond": "@media print", "body": [{"block": {"sels": [".a"], "body": [{"decl": ["content", P]}]}}]}}]),
        (".${v0} > .b, &.${v0}:hover { margin: 0 auto; } .a .${v0} { --my-var: ${v0}; }", [{"block": {"sels": [".%s > .b" % P, "&.%s:hover" % P], "body": [{"decl": ["margin", "0 auto"]}]}}, {"block": {"sels": [".a .%s" % P], "body": [{"decl": ["--my-var", P]}]}}]),
    ][n]
    sites.append((s, l, None, {"items": m}, sh))
for n, sh in enumerate(sorted(set(SHAPES))):
    single(sh, "v")
    single(sh, "cnps"[n % 4])
def extra(l, i, m, slots):
    s = Site()
    for k in slots: s.slot(k)
    sites.append((s, l, i, {"items": m}, "v(%d)"))
A, B = ph(0), ph(1)
for same, m, slots in [
    ('content: "{"; --my-var: "}{ $ $$ $x";', [{"decl": ["content", '"{"']}, {"decl": ["--my-var", '"}{ $ $$ $x"']}], ""),
    ('a[href$=".pdf"] { color: ${v0}; }', [{"block": {"sels": ['a[href$=".pdf"]'], "body": [{"decl": ["color", A]}]}}], "v"),
    ('grid-row: ${v0}/${v1};', [{"decl": ["grid-row", "%s/%s" % (A, B)]}], "vv"),
    ('content: "a"/${v0};', [{"decl": ["content", '"a"/' + A]}], "v"),
    ('@media(min-width: ${v0}) { .a { @supports(display: ${v1}) { color: red; } } }', [{"at": {"cond": "@media (min-width: %s)" % A, "body": [{"block": {"sels": [".a"], "body": [{"at": {"cond": "@supports (display: %s)" % B, "body": [{"decl": ["color", "red"]}]}}]}}]}}], "vv"),
]:
    extra(same, re.sub(r"v(\d)\}", r"v(\1)}", same), m, slots)
extra("margin: 1px /* it's $ { ; */ ${v0};", None, [{"decl": ["margin", "1px " + A]}], "v")
extra("background: url(data:image/png;base64,iVBO/+==) ${v0}, url(x;${v1});", None, [{"decl": ["background", "url(data:image/png;base64,iVBO/+==) %s, url(x;%s)" % (A, B)]}], "vv")
extra(".a /* don't & */ & .${v0}, /* & */ .b /* & */ .c { color: red; }", None, [{"block": {"sels": [".a & ." + A, ".b .c"], "body": [{"decl": ["color", "red"]}]}}], "n")
extra("@media\n\tscreen /* don't; */ and ${v0} { color: red; }", None, [{"at": {"cond": "@media screen and " + A, "body": [{"decl": ["color", "red"]}]}}], "c")
for n in range(3):
    for sh in ["v(%d)", "{ v(%d) }", "v(%d).to_string()"]:
        multi(sh, n)
for n, (s, l, i, m, forced) in enumerate(sites):
    fs = []
    forms = []
    if l is not None: forms.append(("l", l))
    if i is not None: forms.append(("i", i))
    for form, t in forms:
        for ki in [n % 4] if forced else sorted(R.sample(range(4), 2) if n % 3 else range(4)):
            mac, wrap = KINDS[ki]
            f = f"s{n}_{form}{ki}"
            fs.append(f)
            used = {"lets": [], "now": False}
            if form == "l":
                ks = sorted(set(int(x) for x in re.findall(r"\$\{v(\d+)\}", t)))
                args = "".join(f", v{k} = {shape(k, used, forced)}" for k in ks)
                body = f'{mac}(r##"{t}"##{args})'
            else:
                u = re.sub(r"\bv\((\d+)\)", lambda m: shape(int(m[1]), used, forced), t)
                body = f"{mac}({u})"
            ign = "_v" if s.n == 0 else "v"
            pre = ("let _now = enter(v);\n    " if used["now"] else "") + "".join(f"let local{k} = v({k});\n    " for k in used["lets"])
            o.append(f"fn {f}<'a>({ign}: &'a dyn Fn(usize) -> V<'a>) -> Made {{\n    {pre}{wrap}({body})\n}}\n")
    table.append(f"    Site {{ model: r##\"{json.dumps(m, ensure_ascii=False)}\"##, slots: \"{''.join(s.kinds)}\", makes: &[{', '.join(fs)}] }},\n")
o.append("pub const SITES: &[Site] = &[\n" + "".join(table) + "];\n")
open(f"{HERE}/sim/macros/src/lib.rs", "w").write("".join(o))
print(len(sites), "sites", sum(1 for s in sites if s[1]), "literal", sum(1 for s in sites if s[2]), "inline")
