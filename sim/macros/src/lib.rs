// Generated by tools/gen_macros.py.
//! Macro uses with their intended meaning. `v(k)` is the interpolated expression number k.
#![allow(clippy::all)]
use std::fmt;
use stylist::ast::Sheet;
use stylist::{GlobalStyle, Style, StyleSource};

pub struct V<'a>(pub Box<dyn Fn(&mut fmt::Formatter<'_>) -> fmt::Result + 'a>);
impl fmt::Display for V<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (self.0)(f)
    }
}
pub trait Me: Sized {
    fn me(self) -> Self {
        self
    }
}
impl Me for V<'_> {}
#[allow(unused)]
fn me<T>(t: T) -> T {
    t
}
trait Yes {
    fn me(&self) -> bool {
        true
    }
}
impl<'a> Yes for dyn Fn(usize) -> V<'a> + 'a {}
/// A constant expression whose value changes: what v(K) of the macro use being reached shows.
#[derive(Clone, Copy, Default)]
pub struct Now<const K: usize>;
pub struct NowAt(usize);
static NOW: [NowAt; 9] = [NowAt(0), NowAt(1), NowAt(2), NowAt(3), NowAt(4), NowAt(5), NowAt(6), NowAt(7), NowAt(8)];
pub mod consts {
    use super::{Now, NowAt};
    pub static AT_0: NowAt = NowAt(0);
    pub const C_0: Now<0> = Now;
    pub static AT_1: NowAt = NowAt(1);
    pub const C_1: Now<1> = Now;
    pub static AT_2: NowAt = NowAt(2);
    pub const C_2: Now<2> = Now;
    pub static AT_3: NowAt = NowAt(3);
    pub const C_3: Now<3> = Now;
    pub static AT_4: NowAt = NowAt(4);
    pub const C_4: Now<4> = Now;
    pub static AT_5: NowAt = NowAt(5);
    pub const C_5: Now<5> = Now;
    pub static AT_6: NowAt = NowAt(6);
    pub const C_6: Now<6> = Now;
    pub static AT_7: NowAt = NowAt(7);
    pub const C_7: Now<7> = Now;
    pub static AT_8: NowAt = NowAt(8);
    pub const C_8: Now<8> = Now;
}
use consts::*;
pub trait HasNow {
    const VALUE: Self;
}
impl<const K: usize> HasNow for Now<K> {
    const VALUE: Self = Now;
}
fn cur0() -> NowAt {
    NowAt(0)
}
fn cur1() -> NowAt {
    NowAt(1)
}
fn cur2() -> NowAt {
    NowAt(2)
}
fn cur3() -> NowAt {
    NowAt(3)
}
fn cur4() -> NowAt {
    NowAt(4)
}
fn cur5() -> NowAt {
    NowAt(5)
}
fn cur6() -> NowAt {
    NowAt(6)
}
fn cur7() -> NowAt {
    NowAt(7)
}
fn cur8() -> NowAt {
    NowAt(8)
}
pub trait At {
    fn at(self) -> NowAt;
}
impl At for usize {
    fn at(self) -> NowAt {
        NowAt(self)
    }
}
fn now(k: usize) -> NowAt {
    NowAt(k)
}
const fn const_now(k: usize) -> NowAt {
    NowAt(k)
}
pub struct Pair<A>(pub A, pub usize);
impl<A: Clone> std::ops::Add for Pair<A> {
    type Output = A;
    fn add(self, _: Self) -> A {
        self.0
    }
}
impl<const K: usize> std::ops::Neg for Now<K> {
    type Output = Now<K>;
    fn neg(self) -> Now<K> {
        self
    }
}
macro_rules! now {
    ($k:expr) => {
        NowAt($k)
    };
}
impl<const K: usize> Me for Now<K> {}
impl<const K: usize> fmt::Display for Now<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        NowAt(K).fmt(f)
    }
}
impl fmt::Display for NowAt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let v = CURRENT.with(|c| c.get()).expect("no current macro use");
        let v = unsafe { &*v };
        v(self.0 + 100).fmt(f)
    }
}
type Dyn = dyn Fn(usize) -> V<'static>;
thread_local! { static CURRENT: std::cell::Cell<Option<*const Dyn>> = const { std::cell::Cell::new(None) }; }
struct Enter(Option<*const Dyn>);
impl Drop for Enter {
    fn drop(&mut self) {
        CURRENT.with(|c| c.set(self.0));
    }
}
fn enter<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Enter {
    let v: *const Dyn = unsafe { std::mem::transmute(v) };
    Enter(CURRENT.with(|c| c.replace(Some(v))))
}
pub enum Made {
    Source(StyleSource),
    Sheet(Sheet),
    Style(stylist::Result<Style>),
    Global(stylist::Result<GlobalStyle>),
    /// The macro use did not compile.
    #[allow(unused)]
    Rejected(&'static str),
}
pub type F = for<'a> fn(&'a dyn Fn(usize) -> V<'a>) -> Made;
pub struct Site {
    /// Items of the sheet (JSON); ⟦k⟧ stands for what v(k) displays.
    pub model: &'static str,
    /// What each v(k) has to be: v value, p property, n class name, s selector, c condition.
    pub slots: &'static str,
    pub makes: &'static [F],
}
fn s0_l0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"margin: red !important; &:hover { border-left: 3px 3px red, -1rem 0 0.4rem olive; } @supports (display: grid) and (not (display: inline-grid)) { ::before { @supports not (display: grid) { color: " (" attr(x) ")"; } } content: "$${}"; }"##))
}
fn s0_l1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"margin: red !important; &:hover { border-left: 3px 3px red, -1rem 0 0.4rem olive; } @supports (display: grid) and (not (display: inline-grid)) { ::before { @supports not (display: grid) { color: " (" attr(x) ")"; } } content: "$${}"; }"##))
}
fn s0_l2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"margin: red !important; &:hover { border-left: 3px 3px red, -1rem 0 0.4rem olive; } @supports (display: grid) and (not (display: inline-grid)) { ::before { @supports not (display: grid) { color: " (" attr(x) ")"; } } content: "$${}"; }"##))
}
fn s0_l3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"margin: red !important; &:hover { border-left: 3px 3px red, -1rem 0 0.4rem olive; } @supports (display: grid) and (not (display: inline-grid)) { ::before { @supports not (display: grid) { color: " (" attr(x) ")"; } } content: "$${}"; }"##))
}
fn s1_l0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"[title="a,b"] { @supports (display: grid) { color: "</style>"; } }"##))
}
fn s1_l3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"[title="a,b"] { @supports (display: grid) { color: "</style>"; } }"##))
}
fn s1_i0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!([title="a,b"] { @supports (display: grid) { color: "</style>"; } }))
}
fn s1_i1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!([title="a,b"] { @supports (display: grid) { color: "</style>"; } }))
}
fn s2_l1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"-webkit-mask: 10px;"##))
}
fn s2_l2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"-webkit-mask: 10px;"##))
}
fn s2_i0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(-webkit-mask: 10px;))
}
fn s2_i2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(-webkit-mask: 10px;))
}
fn s3_l0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"color: 10px; &.big, &.big { margin: medium dashed green; } @media not all and (monochrome) { content: "$${}"; }"##))
}
fn s3_l1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"color: 10px; &.big, &.big { margin: medium dashed green; } @media not all and (monochrome) { content: "$${}"; }"##))
}
fn s3_l2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"color: 10px; &.big, &.big { margin: medium dashed green; } @media not all and (monochrome) { content: "$${}"; }"##))
}
fn s3_l3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"color: 10px; &.big, &.big { margin: medium dashed green; } @media not all and (monochrome) { content: "$${}"; }"##))
}
fn s4_l2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"@supports (display: grid) { -webkit-mask: rgba(0, 0, 0, 15%); }"##))
}
fn s4_l3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"@supports (display: grid) { -webkit-mask: rgba(0, 0, 0, 15%); }"##))
}
fn s4_i2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(@supports (display: grid) { -webkit-mask: rgba(0, 0, 0, 15%); }))
}
fn s4_i3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(@supports (display: grid) { -webkit-mask: rgba(0, 0, 0, 15%); }))
}
fn s5_l0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"margin: "日本語"; --my-var: "日本語"; margin: " (" attr(x) ")";"##))
}
fn s5_l2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"margin: "日本語"; --my-var: "日本語"; margin: " (" attr(x) ")";"##))
}
fn s5_i0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(margin: "日本語"; --my-var: "日本語"; margin: " (" attr(x) ")";))
}
fn s5_i1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(margin: "日本語"; --my-var: "日本語"; margin: " (" attr(x) ")";))
}
fn s6_l0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"border-left: red; .a, article span { color: 3px 3px red, -1rem 0 0.4rem olive; } & p { transition: medium dashed green; } -webkit-mask: "日本語";"##))
}
fn s6_l1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"border-left: red; .a, article span { color: 3px 3px red, -1rem 0 0.4rem olive; } & p { transition: medium dashed green; } -webkit-mask: "日本語";"##))
}
fn s6_l2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"border-left: red; .a, article span { color: 3px 3px red, -1rem 0 0.4rem olive; } & p { transition: medium dashed green; } -webkit-mask: "日本語";"##))
}
fn s6_l3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"border-left: red; .a, article span { color: 3px 3px red, -1rem 0 0.4rem olive; } & p { transition: medium dashed green; } -webkit-mask: "日本語";"##))
}
fn s6_i0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(border-left: red; .a, article span { color: 3px 3px red, -1rem 0 0.4rem olive; } & p { transition: medium dashed green; } -webkit-mask: "日本語";))
}
fn s6_i1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(border-left: red; .a, article span { color: 3px 3px red, -1rem 0 0.4rem olive; } & p { transition: medium dashed green; } -webkit-mask: "日本語";))
}
fn s6_i2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(border-left: red; .a, article span { color: 3px 3px red, -1rem 0 0.4rem olive; } & p { transition: medium dashed green; } -webkit-mask: "日本語";))
}
fn s6_i3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(border-left: red; .a, article span { color: 3px 3px red, -1rem 0 0.4rem olive; } & p { transition: medium dashed green; } -webkit-mask: "日本語";))
}
fn s7_l2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"&:hover { background-color: "</style>"; color: 3px 3px red, -1rem 0 0.4rem olive; }"##))
}
fn s7_l3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"&:hover { background-color: "</style>"; color: 3px 3px red, -1rem 0 0.4rem olive; }"##))
}
fn s7_i1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(&:hover { background-color: "</style>"; color: 3px 3px red, -1rem 0 0.4rem olive; }))
}
fn s7_i2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(&:hover { background-color: "</style>"; color: 3px 3px red, -1rem 0 0.4rem olive; }))
}
fn s8_l1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"-webkit-mask: rgba(0, 0, 0, 15%); color: " (" attr(x) ")"; background-color: inset 0 1px 2px blue;"##))
}
fn s8_l3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"-webkit-mask: rgba(0, 0, 0, 15%); color: " (" attr(x) ")"; background-color: inset 0 1px 2px blue;"##))
}
fn s8_i1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(-webkit-mask: rgba(0, 0, 0, 15%); color: " (" attr(x) ")"; background-color: inset 0 1px 2px blue;))
}
fn s8_i2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(-webkit-mask: rgba(0, 0, 0, 15%); color: " (" attr(x) ")"; background-color: inset 0 1px 2px blue;))
}
fn s9_l0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"#id { transition: "日本語"; --my-var: " (" attr(x) ")"; }"##))
}
fn s9_l1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"#id { transition: "日本語"; --my-var: " (" attr(x) ")"; }"##))
}
fn s9_l2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"#id { transition: "日本語"; --my-var: " (" attr(x) ")"; }"##))
}
fn s9_l3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"#id { transition: "日本語"; --my-var: " (" attr(x) ")"; }"##))
}
fn s9_i0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(#id { transition: "日本語"; --my-var: " (" attr(x) ")"; }))
}
fn s9_i1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(#id { transition: "日本語"; --my-var: " (" attr(x) ")"; }))
}
fn s9_i2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(#id { transition: "日本語"; --my-var: " (" attr(x) ")"; }))
}
fn s9_i3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(#id { transition: "日本語"; --my-var: " (" attr(x) ")"; }))
}
fn s10_l0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"color: "</style>"; margin: "</style>"; color: "日本語"; @media screen and (max-width: 500px) { [title="a,b"] { --my-var: 10px; background-color: inset 0 1px 2px blue; } margin: url("images/pdf.png"); }"##))
}
fn s10_l1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"color: "</style>"; margin: "</style>"; color: "日本語"; @media screen and (max-width: 500px) { [title="a,b"] { --my-var: 10px; background-color: inset 0 1px 2px blue; } margin: url("images/pdf.png"); }"##))
}
fn s10_i0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(color: "</style>"; margin: "</style>"; color: "日本語"; @media screen and (max-width: 500px) { [title="a,b"] { --my-var: 10px; background-color: inset 0 1px 2px blue; } margin: url("images/pdf.png"); }))
}
fn s10_i3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(color: "</style>"; margin: "</style>"; color: "日本語"; @media screen and (max-width: 500px) { [title="a,b"] { --my-var: 10px; background-color: inset 0 1px 2px blue; } margin: url("images/pdf.png"); }))
}
fn s11_l0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"color: url("images/pdf.png"); #id, & ~ nav { @media (min-width: 3px) and (max-width: 9px), print { border-left: "a  b"; } --my-var: red; }"##))
}
fn s11_l3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"color: url("images/pdf.png"); #id, & ~ nav { @media (min-width: 3px) and (max-width: 9px), print { border-left: "a  b"; } --my-var: red; }"##))
}
fn s11_i1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(color: url("images/pdf.png"); #id, & ~ nav { @media (min-width: 3px) and (max-width: 9px), print { border-left: "a  b"; } --my-var: red; }))
}
fn s11_i3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(color: url("images/pdf.png"); #id, & ~ nav { @media (min-width: 3px) and (max-width: 9px), print { border-left: "a  b"; } --my-var: red; }))
}
fn s12_l0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"@supports not (display: grid) { & > * { transition: 3px 3px red, -1rem 0 0.4rem olive; background-color: "日本語"; background-color: rgba(0, 0, 0, 15%); } } -webkit-mask: calc(100% - 2px);"##))
}
fn s12_l1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"@supports not (display: grid) { & > * { transition: 3px 3px red, -1rem 0 0.4rem olive; background-color: "日本語"; background-color: rgba(0, 0, 0, 15%); } } -webkit-mask: calc(100% - 2px);"##))
}
fn s12_l2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"@supports not (display: grid) { & > * { transition: 3px 3px red, -1rem 0 0.4rem olive; background-color: "日本語"; background-color: rgba(0, 0, 0, 15%); } } -webkit-mask: calc(100% - 2px);"##))
}
fn s12_l3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"@supports not (display: grid) { & > * { transition: 3px 3px red, -1rem 0 0.4rem olive; background-color: "日本語"; background-color: rgba(0, 0, 0, 15%); } } -webkit-mask: calc(100% - 2px);"##))
}
fn s13_l2<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"margin: " (" attr(x) ")";"##))
}
fn s13_l3<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"margin: " (" attr(x) ")";"##))
}
fn s13_i0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(margin: " (" attr(x) ")";))
}
fn s13_i1<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(margin: " (" attr(x) ")";))
}
fn s14_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"@supports (display: grid) { a ${v0}, &:hover { border-left: red; --my-var: ${v1}; } } @media ${v2} { ${v3} { border-left: red; } &.${v4}:hover { -webkit-mask: "$${}"; } } margin: 10px; content: rgb(${v5}, 3, ${v6});"##, v0 = if true { C_0 } else { Now }, v1 = -C_1, v2 = Pair(C_2, 0) + Pair(Now, 1), v3 = format!("{}", v(3)), v4 = [NowAt(4)][0], v5 = Now::<5>, v6 = crate::Now::<6>.me()))
}
fn s14_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"@supports (display: grid) { a ${v0}, &:hover { border-left: red; --my-var: ${v1}; } } @media ${v2} { ${v3} { border-left: red; } &.${v4}:hover { -webkit-mask: "$${}"; } } margin: 10px; content: rgb(${v5}, 3, ${v6});"##, v0 = cur0(), v1 = [C_1; 2][1], v2 = const { NowAt(2) }, v3 = Now::<3>::default(), v4 = (v(4)), v5 = format!("{}", v(5)), v6 = Now::<6>))
}
fn s15_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##".x:not(.y), footer > p { margin: ${v0}; } content: #9799a7; border-left: "日本語"; .a, ${v1} { content: ${v2}; }"##, v0 = v(0), v1 = 'a: { break 'a C_1 }, v2 = (v(2))))
}
fn s15_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".x:not(.y), footer > p { margin: ${v0}; } content: #9799a7; border-left: "日本語"; .a, ${v1} { content: ${v2}; }"##, v0 = C_0, v1 = Pair(C_1, 0) + Pair(Now, 1), v2 = cur2()))
}
fn s15_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##".x:not(.y), footer > p { margin: ${v0}; } content: #9799a7; border-left: "日本語"; .a, ${v1} { content: ${v2}; }"##, v0 = C_0, v1 = NOW[1], v2 = AT_2))
}
fn s15_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##".x:not(.y), footer > p { margin: ${v0}; } content: #9799a7; border-left: "日本語"; .a, ${v1} { content: ${v2}; }"##, v0 = { v(0) }, v1 = &v(1), v2 = Now::<2>))
}
fn s15_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(.x:not(.y), footer > p { margin: ${&AT_0}; } content: #9799a7; border-left: "日本語"; .a, ${unsafe { cur1() }} { content: ${Now::<2>::default()}; }))
}
fn s15_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    let local1 = v(1);
    Made::Sheet(stylist::ast::sheet!(.x:not(.y), footer > p { margin: ${-C_0}; } content: #9799a7; border-left: "日本語"; .a, ${local1} { content: ${C_2}; }))
}
fn s15_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(.x:not(.y), footer > p { margin: ${(C_0,).0}; } content: #9799a7; border-left: "日本語"; .a, ${std::convert::identity(C_1)} { content: ${[C_2; 2][1]}; }))
}
fn s15_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(.x:not(.y), footer > p { margin: ${std::convert::identity(C_0)}; } content: #9799a7; border-left: "日本語"; .a, ${now!(1)} { content: ${loop { break v(2) }}; }))
}
fn s16_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(&:hover { color: "</style>"; background-color: " (" attr(x) ")"; ${if v.me() { v(0) } else { v(99) }}: 0 auto; } @media (min-width: 3px) and (max-width: 9px), print { -webkit-mask: ${(v(1))}; transition: ${loop { break v(2) }}; }))
}
fn s16_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(&:hover { color: "</style>"; background-color: " (" attr(x) ")"; ${cur0()}: 0 auto; } @media (min-width: 3px) and (max-width: 9px), print { -webkit-mask: ${AT_1.to_string().as_str()}; transition: ${AT_2.0.max(0).at()}; }))
}
fn s17_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"-webkit-mask: solid ${v0} 1px; & > * { margin: rgb(${v1}, 3, ${v2}); color: color ${v3} ease, margin ${v4}; } #id, header { -webkit-mask: rotate(${v5}); } @media ${v6} { a ${v7} { color: "</style>"; } }"##, v0 = format!("{}", v(0)), v1 = Pair(C_1, 1).0, v2 = Pair(C_2, 0) + Pair(Now, 1), v3 = 'a: { break 'a C_3 }, v4 = (C_4,).0, v5 = (C_5,).0, v6 = -C_6, v7 = std::convert::identity(C_7)))
}
fn s17_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"-webkit-mask: solid ${v0} 1px; & > * { margin: rgb(${v1}, 3, ${v2}); color: color ${v3} ease, margin ${v4}; } #id, header { -webkit-mask: rotate(${v5}); } @media ${v6} { a ${v7} { color: "</style>"; } }"##, v0 = (&&C_0), v1 = (C_1,).0, v2 = [NowAt(2)][0], v3 = C_3, v4 = <Now<4> as HasNow>::VALUE, v5 = Box::new(v(5)), v6 = Now::<6>::default(), v7 = *&C_7))
}
fn s18_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"@media screen { transition: rotate(${v0}); }"##, v0 = cur0()))
}
fn s18_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"@media screen { transition: rotate(${v0}); }"##, v0 = match 1 { _ => v(0) }))
}
fn s18_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"@media screen { transition: rotate(${v0}); }"##, v0 = &v(0)))
}
fn s18_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"@media screen { transition: rotate(${v0}); }"##, v0 = format!("{}", v(0))))
}
fn s18_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(@media screen { transition: rotate(${Box::new(v(0))}); }))
}
fn s18_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(@media screen { transition: rotate(${C_0}); }))
}
fn s18_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let local0 = v(0);
    Made::Style(stylist::style!(@media screen { transition: rotate(${local0}); }))
}
fn s18_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(@media screen { transition: rotate(${v(0).to_string()}); }))
}
fn s19_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"header { border-left: url("images/pdf.png"); @media (min-width: 3px) and (max-width: 9px), print { margin: red; } --my-var: ${v0}; }"##, v0 = v(0).to_string()))
}
fn s19_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"header { border-left: url("images/pdf.png"); @media (min-width: 3px) and (max-width: 9px), print { margin: red; } --my-var: ${v0}; }"##, v0 = Now::<0>))
}
fn s19_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(header { border-left: url("images/pdf.png"); @media (min-width: 3px) and (max-width: 9px), print { margin: red; } --my-var: ${AT_0}; }))
}
fn s19_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(header { border-left: url("images/pdf.png"); @media (min-width: 3px) and (max-width: 9px), print { margin: red; } --my-var: ${AT_0.to_string().as_str()}; }))
}
fn s20_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    let local1 = v(1);
    let local2 = v(2);
    Made::Sheet(stylist::ast::sheet!(r##"${v0}, &.big { margin: ${v1}; --my-var: color ${v2} ease, margin ${v3}; } content: color ${v4} ease, margin ${v5}; @media ${v6} { border-left: "日本語"; } &.${v7}:hover { transition: "</style>"; }"##, v0 = me(v(0)), v1 = local1, v2 = local2, v3 = C_3 as Now<3>, v4 = 'a: { break 'a C_4 }, v5 = v(5), v6 = C_6, v7 = unsafe { cur7() }))
}
fn s20_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"${v0}, &.big { margin: ${v1}; --my-var: color ${v2} ease, margin ${v3}; } content: color ${v4} ease, margin ${v5}; @media ${v6} { border-left: "日本語"; } &.${v7}:hover { transition: "</style>"; }"##, v0 = cur0(), v1 = &AT_1, v2 = <Now<2> as HasNow>::VALUE, v3 = (C_3,).0, v4 = loop { break v(4) }, v5 = C_5, v6 = now!(6), v7 = v(7)))
}
fn s21_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    let local1 = v(1);
    Made::Source(stylist::css!(${const { NowAt(0) }}, footer > p { border-left: "a  b"; @media ${local1} { ${cur2()}: "a  b"; } color: ${std::convert::identity(C_3)}; }))
}
fn s21_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    let local1 = v(1);
    let local2 = v(2);
    Made::Sheet(stylist::ast::sheet!(${'a: { break 'a C_0 }}, footer > p { border-left: "a  b"; @media ${local1} { ${local2}: "a  b"; } color: ${(|| NowAt(3))()}; }))
}
fn s21_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(${{ static S: NowAt = NowAt(0); &S }}, footer > p { border-left: "a  b"; @media ${(&&C_1)} { ${AT_2.0.max(0).at()}: "a  b"; } color: ${C_3}; }))
}
fn s21_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(${Pair(C_0, 0) + Pair(Now, 1)}, footer > p { border-left: "a  b"; @media ${v(1)} { ${C_2 as Now<2>}: "a  b"; } color: ${Now::<3>}; }))
}
fn s22_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(border-left: 0 auto; border-left: 3px 3px red, -1rem 0 0.4rem olive; ${if v.me() { v(0) } else { v(99) }}: red; ${cur1()}: ${(v(2))};))
}
fn s22_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(border-left: 0 auto; border-left: 3px 3px red, -1rem 0 0.4rem olive; ${*&C_0}: red; ${Now::<1>}: ${*&C_2};))
}
fn s23_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"--my-var: ${v0}; @media ${v1} { @keyframes spin { from { --my-var: "日本語"; } 50% { color: 10px; } } transition: ${v2}; }"##, v0 = Now::<0>, v1 = AT_1, v2 = now!(2)))
}
fn s23_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"--my-var: ${v0}; @media ${v1} { @keyframes spin { from { --my-var: "日本語"; } 50% { color: 10px; } } transition: ${v2}; }"##, v0 = -C_0, v1 = now(1), v2 = now!(2)))
}
fn s24_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"@supports selector(a:not(.b)) { ::before { background-color: 10px; background-color: ${v0}; } }"##, v0 = v(0).to_string()))
}
fn s24_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"@supports selector(a:not(.b)) { ::before { background-color: 10px; background-color: ${v0}; } }"##, v0 = Now::<0>))
}
fn s24_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"@supports selector(a:not(.b)) { ::before { background-color: 10px; background-color: ${v0}; } }"##, v0 = Pair(C_0, 1).0))
}
fn s24_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"@supports selector(a:not(.b)) { ::before { background-color: 10px; background-color: ${v0}; } }"##, v0 = Pair(C_0, 0) + Pair(Now, 1)))
}
fn s24_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(@supports selector(a:not(.b)) { ::before { background-color: 10px; background-color: ${{ static S: NowAt = NowAt(0); &S }}; } }))
}
fn s24_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(@supports selector(a:not(.b)) { ::before { background-color: 10px; background-color: ${-C_0}; } }))
}
fn s24_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(@supports selector(a:not(.b)) { ::before { background-color: 10px; background-color: ${(C_0,).0}; } }))
}
fn s24_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@supports selector(a:not(.b)) { ::before { background-color: 10px; background-color: ${Pair(C_0, 1).0}; } }))
}
fn s25_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"color: rgba(0, 0, 0, 15%); footer > p { --my-var: "</style>"; --my-var: ${v0}; }"##, v0 = C_0))
}
fn s25_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: rgba(0, 0, 0, 15%); footer > p { --my-var: "</style>"; --my-var: ${v0}; }"##, v0 = const { NowAt(0) }))
}
fn s25_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(color: rgba(0, 0, 0, 15%); footer > p { --my-var: "</style>"; --my-var: ${v(0).to_string()}; }))
}
fn s25_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: rgba(0, 0, 0, 15%); footer > p { --my-var: "</style>"; --my-var: ${[C_0; 2][1]}; }))
}
fn s26_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"margin: rotate(${v0}); .p > .${v1} { -webkit-mask: color ${v2} ease, margin ${v3}; color: "</style>"; color: ${v4}; } @media screen and ${v5} { color: ${v6}; & > * { margin: ${v7}; transition: rgba(0, 0, 0, 15%); } }"##, v0 = AT_0, v1 = v(1), v2 = crate::Now::<2>.me(), v3 = Pair(C_3, 1).0, v4 = [NowAt(4)][0], v5 = std::convert::identity(C_5), v6 = <Now<6> as HasNow>::VALUE, v7 = NOW[7..].first().unwrap()))
}
fn s26_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"margin: rotate(${v0}); .p > .${v1} { -webkit-mask: color ${v2} ease, margin ${v3}; color: "</style>"; color: ${v4}; } @media screen and ${v5} { color: ${v6}; & > * { margin: ${v7}; transition: rgba(0, 0, 0, 15%); } }"##, v0 = <Now<0> as HasNow>::VALUE, v1 = v(1), v2 = Box::new(v(2)), v3 = const_now(3), v4 = (C_4,).0, v5 = AT_5, v6 = v(6), v7 = (C_7,).0))
}
fn s27_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"&.${v0}:hover { -webkit-mask: ${v1}; }"##, v0 = now(0), v1 = NOW[1]))
}
fn s27_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"&.${v0}:hover { -webkit-mask: ${v1}; }"##, v0 = { const S: NowAt = NowAt(0); S }, v1 = (&&C_1)))
}
fn s27_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"&.${v0}:hover { -webkit-mask: ${v1}; }"##, v0 = C_0 as Now<0>, v1 = now(1)))
}
fn s27_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"&.${v0}:hover { -webkit-mask: ${v1}; }"##, v0 = if v.me() { v(0) } else { v(99) }, v1 = match 1 { _ => v(1) }))
}
fn s27_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(&.${(|| NowAt(0))()}:hover { -webkit-mask: ${Pair { 0: C_1, 1: 2 }.0}; }))
}
fn s27_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(&.${const { NowAt(0) }}:hover { -webkit-mask: ${&AT_1}; }))
}
fn s27_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(&.${v(0)}:hover { -webkit-mask: ${NOW[1..].first().unwrap()}; }))
}
fn s27_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(&.${{ static S: NowAt = NowAt(0); &S }}:hover { -webkit-mask: ${Now::<1>::default()}; }))
}
fn s28_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"&.big { margin: ${v0}; } -webkit-mask: rotate(${v1});"##, v0 = C_0, v1 = -C_1))
}
fn s28_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"&.big { margin: ${v0}; } -webkit-mask: rotate(${v1});"##, v0 = const_now(0), v1 = <Now<1> as HasNow>::VALUE))
}
fn s28_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(&.big { margin: ${[NowAt(0)][0]}; } -webkit-mask: rotate(${AT_1});))
}
fn s28_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(&.big { margin: ${format!("{}", v(0))}; } -webkit-mask: rotate(${format!("{}", v(1))});))
}
fn s29_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"content: rgba(0, 0, 0, 15%); @media screen { .p > .${v0} { -webkit-mask: ${v1}; background-color: ${v2}; color: 10px; } border-left: 3px 3px red, -1rem 0 0.4rem olive; } .${v3}, & > * { border-left: 3px 3px red, -1rem 0 0.4rem olive; color: solid ${v4} 1px; }"##, v0 = v(0), v1 = Now::<1>, v2 = AT_2, v3 = { const S: NowAt = NowAt(3); S }, v4 = NOW[4]))
}
fn s29_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"content: rgba(0, 0, 0, 15%); @media screen { .p > .${v0} { -webkit-mask: ${v1}; background-color: ${v2}; color: 10px; } border-left: 3px 3px red, -1rem 0 0.4rem olive; } .${v3}, & > * { border-left: 3px 3px red, -1rem 0 0.4rem olive; color: solid ${v4} 1px; }"##, v0 = NOW[0], v1 = &mut Now::<1>, v2 = (v(2)), v3 = format!("{}", v(3)), v4 = const_now(4)))
}
fn s30_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"--my-var: ${v0};"##, v0 = v(0).to_string()))
}
fn s30_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"--my-var: ${v0};"##, v0 = cur0()))
}
fn s30_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"--my-var: ${v0};"##, v0 = { const S: NowAt = NowAt(0); S }))
}
fn s30_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"--my-var: ${v0};"##, v0 = v(0)))
}
fn s30_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(--my-var: ${&AT_0};))
}
fn s30_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(--my-var: ${Box::new(v(0))};))
}
fn s30_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(--my-var: ${AT_0.to_string().as_str()};))
}
fn s30_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(--my-var: ${C_0};))
}
fn s31_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"&:hover, :hover { color: rotate(${v0}); }"##, v0 = cur0()))
}
fn s31_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"&:hover, :hover { color: rotate(${v0}); }"##, v0 = AT_0.0.max(0).at()))
}
fn s31_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(&:hover, :hover { color: rotate(${'a: { break 'a C_0 }}); }))
}
fn s31_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(&:hover, :hover { color: rotate(${*&C_0}); }))
}
fn s32_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"@media not all and (monochrome) { ${v0} { margin: ${v1}; } } header { --my-var: "</style>"; }"##, v0 = &v(0), v1 = Pair { 0: C_1, 1: 2 }.0))
}
fn s32_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"@media not all and (monochrome) { ${v0} { margin: ${v1}; } } header { --my-var: "</style>"; }"##, v0 = cur0(), v1 = Now::<1>::default()))
}
fn s32_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(@media not all and (monochrome) { ${(C_0,).0} { margin: ${match 1 { _ => v(1) }}; } } header { --my-var: "</style>"; }))
}
fn s32_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(@media not all and (monochrome) { ${v(0)} { margin: ${Box::new(v(1))}; } } header { --my-var: "</style>"; }))
}
fn s33_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"${v0} { @supports not (display: grid) { transition: rgba(0, 0, 0, 15%); } } :hover { margin: rgb(${v1}, 3, ${v2}); background-color: ${v3}; }"##, v0 = NOW[0], v1 = v(1), v2 = C_2.me(), v3 = now!(3)))
}
fn s33_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"${v0} { @supports not (display: grid) { transition: rgba(0, 0, 0, 15%); } } :hover { margin: rgb(${v1}, 3, ${v2}); background-color: ${v3}; }"##, v0 = loop { break v(0) }, v1 = [C_1; 2][1], v2 = (C_2,).0, v3 = v(3)))
}
fn s33_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"${v0} { @supports not (display: grid) { transition: rgba(0, 0, 0, 15%); } } :hover { margin: rgb(${v1}, 3, ${v2}); background-color: ${v3}; }"##, v0 = C_0, v1 = AT_1, v2 = (|| NowAt(2))(), v3 = &mut Now::<3>))
}
fn s33_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"${v0} { @supports not (display: grid) { transition: rgba(0, 0, 0, 15%); } } :hover { margin: rgb(${v1}, 3, ${v2}); background-color: ${v3}; }"##, v0 = { const S: NowAt = NowAt(0); S }, v1 = &AT_1, v2 = [NowAt(2)][0], v3 = AT_3))
}
fn s33_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(${now(0)} { @supports not (display: grid) { transition: rgba(0, 0, 0, 15%); } } :hover { margin: rgb(${Pair { 0: C_1, 1: 2 }.0}, 3, ${unsafe { NOW.get_unchecked(2) }}); background-color: ${loop { break v(3) }}; }))
}
fn s33_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(${(C_0,).0} { @supports not (display: grid) { transition: rgba(0, 0, 0, 15%); } } :hover { margin: rgb(${now!(1)}, 3, ${(&&C_2)}); background-color: ${cur3()}; }))
}
fn s33_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(${Now::<0>} { @supports not (display: grid) { transition: rgba(0, 0, 0, 15%); } } :hover { margin: rgb(${v(1)}, 3, ${{ const S: NowAt = NowAt(2); S }}); background-color: ${consts::AT_3}; }))
}
fn s33_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(${const { NowAt(0) }} { @supports not (display: grid) { transition: rgba(0, 0, 0, 15%); } } :hover { margin: rgb(${(&&C_1)}, 3, ${C_2}); background-color: ${(v(3))}; }))
}
fn s34_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"-webkit-mask: ${v0}; transition: red;"##, v0 = me(v(0))))
}
fn s34_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let local0 = v(0);
    Made::Global(stylist::global_style!(r##"-webkit-mask: ${v0}; transition: red;"##, v0 = local0))
}
fn s34_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(-webkit-mask: ${[NowAt(0)][0]}; transition: red;))
}
fn s34_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(-webkit-mask: ${*&C_0}; transition: red;))
}
fn s35_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"margin: rotate(${v0});"##, v0 = C_0))
}
fn s35_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"margin: rotate(${v0});"##, v0 = Now::<0>::default()))
}
fn s35_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(margin: rotate(${AT_0.0.max(0).at()});))
}
fn s35_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(margin: rotate(${consts::AT_0});))
}
fn s36_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(@media ${v(0)} { .p > .${Now::<1>} { border-left: rgba(0, 0, 0, 15%); ${{ static S: NowAt = NowAt(2); &S }}: " (" attr(x) ")"; } } -webkit-mask: ${AT_3.to_string().as_str()};))
}
fn s36_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(@media ${unsafe { NOW.get_unchecked(0) }} { .p > .${[NowAt(1)][0]} { border-left: rgba(0, 0, 0, 15%); ${[C_2; 2][1]}: " (" attr(x) ")"; } } -webkit-mask: ${now!(3)};))
}
fn s36_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(@media ${(|| NowAt(0))()} { .p > .${std::convert::identity(C_1)} { border-left: rgba(0, 0, 0, 15%); ${Now::<2>}: " (" attr(x) ")"; } } -webkit-mask: ${const { NowAt(3) }};))
}
fn s36_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${C_0 as Now<0>} { .p > .${unsafe { cur1() }} { border-left: rgba(0, 0, 0, 15%); ${(C_2,).0}: " (" attr(x) ")"; } } -webkit-mask: ${C_3 as Now<3>};))
}
fn s37_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"--my-var: ${v0}; background-color: " (" attr(x) ")";"##, v0 = *&C_0))
}
fn s37_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"--my-var: ${v0}; background-color: " (" attr(x) ")";"##, v0 = C_0))
}
fn s37_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(--my-var: ${now(0)}; background-color: " (" attr(x) ")";))
}
fn s37_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(--my-var: ${Now::<0>::VALUE}; background-color: " (" attr(x) ")";))
}
fn s38_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"@keyframes spin { from { --my-var: 10px; } 50% { --my-var: solid ${v0} 1px; } } color: solid ${v1} 1px;"##, v0 = { C_0 }, v1 = cur1()))
}
fn s38_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"@keyframes spin { from { --my-var: 10px; } 50% { --my-var: solid ${v0} 1px; } } color: solid ${v1} 1px;"##, v0 = { const S: NowAt = NowAt(0); S }, v1 = v(1).to_string()))
}
fn s39_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"& > *, ${v0} { color: rotate(${v1}); border-left: "日本語"; } &:hover { margin: rotate(${v2}); }"##, v0 = { static S: NowAt = NowAt(0); &S }, v1 = (C_1,).0, v2 = std::convert::identity(C_2)))
}
fn s39_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"& > *, ${v0} { color: rotate(${v1}); border-left: "日本語"; } &:hover { margin: rotate(${v2}); }"##, v0 = now(0), v1 = (C_1,).0, v2 = now(2)))
}
fn s39_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"& > *, ${v0} { color: rotate(${v1}); border-left: "日本語"; } &:hover { margin: rotate(${v2}); }"##, v0 = me(v(0)), v1 = <Now<1> as HasNow>::VALUE, v2 = 'a: { break 'a C_2 }))
}
fn s39_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"& > *, ${v0} { color: rotate(${v1}); border-left: "日本語"; } &:hover { margin: rotate(${v2}); }"##, v0 = Pair(C_0, 0) + Pair(Now, 1), v1 = AT_1, v2 = AT_2))
}
fn s39_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(& > *, ${Now::<0>::default()} { color: rotate(${[C_1; 2][1]}); border-left: "日本語"; } &:hover { margin: rotate(${NOW[2..].first().unwrap()}); }))
}
fn s39_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(& > *, ${if v.me() { v(0) } else { v(99) }} { color: rotate(${{ C_1 }}); border-left: "日本語"; } &:hover { margin: rotate(${unsafe { cur2() }}); }))
}
fn s39_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(& > *, ${AT_0} { color: rotate(${AT_1}); border-left: "日本語"; } &:hover { margin: rotate(${match 1 { _ => v(2) }}); }))
}
fn s39_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(& > *, ${{ static S: NowAt = NowAt(0); &S }} { color: rotate(${*&C_1}); border-left: "日本語"; } &:hover { margin: rotate(${{ static S: NowAt = NowAt(2); &S }}); }))
}
fn s40_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"--my-var: ${v0}; @supports selector(a:not(.b)) { -webkit-mask: ${v1}; }"##, v0 = cur0(), v1 = v(1)))
}
fn s40_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"--my-var: ${v0}; @supports selector(a:not(.b)) { -webkit-mask: ${v1}; }"##, v0 = now(0), v1 = { static S: NowAt = NowAt(1); &S }))
}
fn s40_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(--my-var: ${crate::Now::<0>.me()}; @supports selector(a:not(.b)) { -webkit-mask: ${v(1)}; }))
}
fn s40_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(--my-var: ${{ C_0 }}; @supports selector(a:not(.b)) { -webkit-mask: ${Pair(C_1, 1).0}; }))
}
fn s41_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"--my-var: 3px 3px red, -1rem 0 0.4rem olive; --my-var: ${v0}; content: rgb(${v1}, 3, ${v2});"##, v0 = C_0.me(), v1 = [C_1; 2][1], v2 = { C_2 }))
}
fn s41_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"--my-var: 3px 3px red, -1rem 0 0.4rem olive; --my-var: ${v0}; content: rgb(${v1}, 3, ${v2});"##, v0 = { static S: NowAt = NowAt(0); &S }, v1 = cur1(), v2 = { v(2) }))
}
fn s41_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(--my-var: 3px 3px red, -1rem 0 0.4rem olive; --my-var: ${AT_0.to_string().as_str()}; content: rgb(${cur1()}, 3, ${Pair(C_2, 0) + Pair(Now, 1)});))
}
fn s41_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(--my-var: 3px 3px red, -1rem 0 0.4rem olive; --my-var: ${v(0)}; content: rgb(${Now::<1>::VALUE}, 3, ${&v(2)});))
}
fn s42_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"-webkit-mask: medium dashed green; transition: rgb(${v0}, 3, ${v1});"##, v0 = const { NowAt(0) }, v1 = unsafe { cur1() }))
}
fn s42_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"-webkit-mask: medium dashed green; transition: rgb(${v0}, 3, ${v1});"##, v0 = (C_0,).0, v1 = C_1 as Now<1>))
}
fn s42_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"-webkit-mask: medium dashed green; transition: rgb(${v0}, 3, ${v1});"##, v0 = Now::<0>, v1 = (|| NowAt(1))()))
}
fn s42_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"-webkit-mask: medium dashed green; transition: rgb(${v0}, 3, ${v1});"##, v0 = (&&C_0), v1 = now!(1)))
}
fn s42_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(-webkit-mask: medium dashed green; transition: rgb(${C_0.me()}, 3, ${C_1.me()});))
}
fn s42_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    let local0 = v(0);
    Made::Sheet(stylist::ast::sheet!(-webkit-mask: medium dashed green; transition: rgb(${local0}, 3, ${-C_1});))
}
fn s42_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(-webkit-mask: medium dashed green; transition: rgb(${format!("{}", v(0))}, 3, ${unsafe { cur1() }});))
}
fn s42_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(-webkit-mask: medium dashed green; transition: rgb(${unsafe { cur0() }}, 3, ${if true { C_1 } else { Now }});))
}
fn s43_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"${v0}, &.${v1}:hover { color: rgb(${v2}, 3, ${v3}); @supports not (display: grid) { border-left: inset 0 1px 2px blue; } }"##, v0 = &mut Now::<0>, v1 = C_1 as Now<1>, v2 = std::convert::identity(C_2), v3 = format!("{}", v(3))))
}
fn s43_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"${v0}, &.${v1}:hover { color: rgb(${v2}, 3, ${v3}); @supports not (display: grid) { border-left: inset 0 1px 2px blue; } }"##, v0 = Pair(C_0, 0) + Pair(Now, 1), v1 = *&C_1, v2 = (v(2)), v3 = *&C_3))
}
fn s43_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(${NOW[0..].first().unwrap()}, &.${me(v(1))}:hover { color: rgb(${std::convert::identity(C_2)}, 3, ${C_3.me()}); @supports not (display: grid) { border-left: inset 0 1px 2px blue; } }))
}
fn s43_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(${format!("{}", v(0))}, &.${cur1()}:hover { color: rgb(${AT_2}, 3, ${NOW[3]}); @supports not (display: grid) { border-left: inset 0 1px 2px blue; } }))
}
fn s44_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    let local3 = v(3);
    Made::Sheet(stylist::ast::sheet!(r##"@keyframes spin { from { transition: 3px 3px red, -1rem 0 0.4rem olive; } 50% { background-color: "</style>"; } } @media screen and ${v0} { [title="a,b"] { transition: ${v1}; } article span { @media (min-width: 3px) and (max-width: 9px), print { --my-var: solid ${v2} 1px; } color: ${v3}; -webkit-mask: rgba(0, 0, 0, 15%); } }"##, v0 = (C_0,).0, v1 = C_1, v2 = (v(2)), v3 = local3))
}
fn s44_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"@keyframes spin { from { transition: 3px 3px red, -1rem 0 0.4rem olive; } 50% { background-color: "</style>"; } } @media screen and ${v0} { [title="a,b"] { transition: ${v1}; } article span { @media (min-width: 3px) and (max-width: 9px), print { --my-var: solid ${v2} 1px; } color: ${v3}; -webkit-mask: rgba(0, 0, 0, 15%); } }"##, v0 = v(0), v1 = C_1.me(), v2 = [NowAt(2)][0], v3 = [NowAt(3)][0]))
}
fn s45_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"transition: ${v0};"##, v0 = cur0()))
}
fn s45_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"transition: ${v0};"##, v0 = NOW[0]))
}
fn s45_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"transition: ${v0};"##, v0 = AT_0))
}
fn s45_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"transition: ${v0};"##, v0 = unsafe { NOW.get_unchecked(0) }))
}
fn s45_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(transition: ${crate::Now::<0>.me()};))
}
fn s45_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(transition: ${{ static S: NowAt = NowAt(0); &S }};))
}
fn s45_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(transition: ${v(0)};))
}
fn s45_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(transition: ${<Now<0> as HasNow>::VALUE};))
}
fn s46_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"color: ${v0}; .x:not(.y), footer > p { @media print { color: "</style>"; } } transition: rgb(${v1}, 3, ${v2});"##, v0 = match 1 { _ => v(0) }, v1 = { const S: NowAt = NowAt(1); S }, v2 = v(2)))
}
fn s46_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    let local0 = v(0);
    Made::Style(stylist::style!(r##"color: ${v0}; .x:not(.y), footer > p { @media print { color: "</style>"; } } transition: rgb(${v1}, 3, ${v2});"##, v0 = local0, v1 = AT_1.0.max(0).at(), v2 = Now::<2>))
}
fn s46_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${if true { C_0 } else { Now }}; .x:not(.y), footer > p { @media print { color: "</style>"; } } transition: rgb(${Pair { 0: C_1, 1: 2 }.0}, 3, ${AT_2.0.max(0).at()});))
}
fn s46_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${Now::<0>}; .x:not(.y), footer > p { @media print { color: "</style>"; } } transition: rgb(${&mut Now::<1>}, 3, ${[C_2; 2][1]});))
}
fn s47_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: red; @media ${v0} { color: calc(100% - 2px); --my-var: rotate(${v1}); } margin: color ${v2} ease, margin ${v3}; border-left: "</style>";"##, v0 = (&&C_0), v1 = const { NowAt(1) }, v2 = C_2 as Now<2>, v3 = [C_3; 2][1]))
}
fn s47_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"color: red; @media ${v0} { color: calc(100% - 2px); --my-var: rotate(${v1}); } margin: color ${v2} ease, margin ${v3}; border-left: "</style>";"##, v0 = AT_0.to_string().as_str(), v1 = Now::<1>::default(), v2 = now(2), v3 = if v.me() { v(3) } else { v(99) }))
}
fn s48_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"-webkit-mask: rgb(${v0}, 3, ${v1});"##, v0 = if true { C_0 } else { Now }, v1 = now(1)))
}
fn s48_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"-webkit-mask: rgb(${v0}, 3, ${v1});"##, v0 = consts::AT_0, v1 = unsafe { NOW.get_unchecked(1) }))
}
fn s48_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"-webkit-mask: rgb(${v0}, 3, ${v1});"##, v0 = v(0), v1 = { const S: NowAt = NowAt(1); S }))
}
fn s48_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"-webkit-mask: rgb(${v0}, 3, ${v1});"##, v0 = 'a: { break 'a C_0 }, v1 = &mut Now::<1>))
}
fn s48_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(-webkit-mask: rgb(${if v.me() { v(0) } else { v(99) }}, 3, ${{ const S: NowAt = NowAt(1); S }});))
}
fn s48_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(-webkit-mask: rgb(${consts::AT_0}, 3, ${v(1)});))
}
fn s48_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(-webkit-mask: rgb(${C_0}, 3, ${match 1 { _ => v(1) }});))
}
fn s48_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(-webkit-mask: rgb(${Pair(C_0, 0) + Pair(Now, 1)}, 3, ${AT_1.to_string().as_str()});))
}
fn s49_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"@media ${v0} { -webkit-mask: ${v1}; }"##, v0 = *&C_0, v1 = Now::<1>))
}
fn s49_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"@media ${v0} { -webkit-mask: ${v1}; }"##, v0 = 'a: { break 'a C_0 }, v1 = me(v(1))))
}
fn s49_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(@media ${{ v(0) }} { -webkit-mask: ${(C_1,).0}; }))
}
fn s49_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${{ const S: NowAt = NowAt(0); S }} { -webkit-mask: ${(&&C_1)}; }))
}
fn s50_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"${v0} { margin: "</style>"; content: color ${v1} ease, margin ${v2}; }"##, v0 = *&C_0, v1 = AT_1.to_string().as_str(), v2 = &AT_2))
}
fn s50_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"${v0} { margin: "</style>"; content: color ${v1} ease, margin ${v2}; }"##, v0 = v(0), v1 = NOW[1..].first().unwrap(), v2 = C_2 as Now<2>))
}
fn s51_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"--my-var: 10px; @media ${v0} { color: ${v1}; .p > .${v2}, article span { @media ${v3} { --my-var: rotate(${v4}); } } }"##, v0 = if v.me() { v(0) } else { v(99) }, v1 = [C_1; 2][1], v2 = <Now<2> as HasNow>::VALUE, v3 = AT_3.0.max(0).at(), v4 = const_now(4)))
}
fn s51_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    let local2 = v(2);
    Made::Sheet(stylist::ast::sheet!(r##"--my-var: 10px; @media ${v0} { color: ${v1}; .p > .${v2}, article span { @media ${v3} { --my-var: rotate(${v4}); } } }"##, v0 = if true { C_0 } else { Now }, v1 = v(1).to_string(), v2 = local2, v3 = if v.me() { v(3) } else { v(99) }, v4 = v(4).to_string()))
}
fn s51_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"--my-var: 10px; @media ${v0} { color: ${v1}; .p > .${v2}, article span { @media ${v3} { --my-var: rotate(${v4}); } } }"##, v0 = unsafe { cur0() }, v1 = cur1(), v2 = if true { C_2 } else { Now }, v3 = loop { break v(3) }, v4 = cur4()))
}
fn s51_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"--my-var: 10px; @media ${v0} { color: ${v1}; .p > .${v2}, article span { @media ${v3} { --my-var: rotate(${v4}); } } }"##, v0 = unsafe { NOW.get_unchecked(0) }, v1 = -C_1, v2 = &AT_2, v3 = { v(3) }, v4 = Now::<4>))
}
fn s51_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(--my-var: 10px; @media ${Pair(C_0, 1).0} { color: ${(v(1))}; .p > .${Now::<2>}, article span { @media ${Now::<3>} { --my-var: rotate(${(|| NowAt(4))()}); } } }))
}
fn s51_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(--my-var: 10px; @media ${format!("{}", v(0))} { color: ${Now::<1>::default()}; .p > .${AT_2.to_string().as_str()}, article span { @media ${std::convert::identity(C_3)} { --my-var: rotate(${Pair(C_4, 1).0}); } } }))
}
fn s51_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(--my-var: 10px; @media ${std::convert::identity(C_0)} { color: ${Now::<1>}; .p > .${C_2.me()}, article span { @media ${[NowAt(3)][0]} { --my-var: rotate(${const { NowAt(4) }}); } } }))
}
fn s51_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(--my-var: 10px; @media ${(C_0,).0} { color: ${AT_1}; .p > .${AT_2}, article span { @media ${NOW[3]} { --my-var: rotate(${const_now(4)}); } } }))
}
fn s52_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(@supports selector(a:not(.b)) { ${match 1 { _ => v(0) }}: medium dashed green; }))
}
fn s52_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@supports selector(a:not(.b)) { ${AT_0.0.max(0).at()}: medium dashed green; }))
}
fn s53_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"border-left: ${v0}; --my-var: ${v1};"##, v0 = match 1 { _ => v(0) }, v1 = { const S: NowAt = NowAt(1); S }))
}
fn s53_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"border-left: ${v0}; --my-var: ${v1};"##, v0 = &AT_0, v1 = unsafe { NOW.get_unchecked(1) }))
}
fn s53_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(border-left: ${(C_0,).0}; --my-var: ${unsafe { NOW.get_unchecked(1) }};))
}
fn s53_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(border-left: ${cur0()}; --my-var: ${-C_1};))
}
fn s54_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##".p > .${v0}, #id { --my-var: rgba(0, 0, 0, 15%); }"##, v0 = AT_0.to_string().as_str()))
}
fn s54_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".p > .${v0}, #id { --my-var: rgba(0, 0, 0, 15%); }"##, v0 = Pair(C_0, 1).0))
}
fn s54_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##".p > .${v0}, #id { --my-var: rgba(0, 0, 0, 15%); }"##, v0 = [C_0; 2][1]))
}
fn s54_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let local0 = v(0);
    Made::Global(stylist::global_style!(r##".p > .${v0}, #id { --my-var: rgba(0, 0, 0, 15%); }"##, v0 = local0))
}
fn s54_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(.p > .${v(0)}, #id { --my-var: rgba(0, 0, 0, 15%); }))
}
fn s54_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.p > .${AT_0.to_string().as_str()}, #id { --my-var: rgba(0, 0, 0, 15%); }))
}
fn s54_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(.p > .${C_0.me()}, #id { --my-var: rgba(0, 0, 0, 15%); }))
}
fn s54_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let local0 = v(0);
    Made::Global(stylist::global_style!(.p > .${local0}, #id { --my-var: rgba(0, 0, 0, 15%); }))
}
fn s55_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##".${v0} { transition: "</style>"; }"##, v0 = const { NowAt(0) }))
}
fn s55_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##".${v0} { transition: "</style>"; }"##, v0 = const_now(0)))
}
fn s55_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(.${consts::AT_0} { transition: "</style>"; }))
}
fn s55_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(.${'a: { break 'a C_0 }} { transition: "</style>"; }))
}
fn s56_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"@media ${v0} { & p, ${v1} { @media ${v2} { -webkit-mask: "日本語"; } border-left: 0 auto; transition: #9799a7; } footer > p { content: url("images/pdf.png"); color: rgb(${v3}, 3, ${v4}); } }"##, v0 = if true { C_0 } else { Now }, v1 = cur1(), v2 = v(2), v3 = (C_3,).0, v4 = v(4).to_string()))
}
fn s56_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"@media ${v0} { & p, ${v1} { @media ${v2} { -webkit-mask: "日本語"; } border-left: 0 auto; transition: #9799a7; } footer > p { content: url("images/pdf.png"); color: rgb(${v3}, 3, ${v4}); } }"##, v0 = cur0(), v1 = Now::<1>::VALUE, v2 = AT_2, v3 = format!("{}", v(3)), v4 = Now::<4>))
}
fn s56_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(@media ${{ v(0) }} { & p, ${C_1.me()} { @media ${Now::<2>::default()} { -webkit-mask: "日本語"; } border-left: 0 auto; transition: #9799a7; } footer > p { content: url("images/pdf.png"); color: rgb(${Pair(C_3, 1).0}, 3, ${crate::Now::<4>.me()}); } }))
}
fn s56_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${v(0)} { & p, ${Now::<1>::VALUE} { @media ${NOW[2]} { -webkit-mask: "日本語"; } border-left: 0 auto; transition: #9799a7; } footer > p { content: url("images/pdf.png"); color: rgb(${C_3}, 3, ${match 1 { _ => v(4) }}); } }))
}
fn s57_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"& > * { content: rgba(0, 0, 0, 15%); border-left: ${v0}; margin: red; } transition: ${v1};"##, v0 = { const S: NowAt = NowAt(0); S }, v1 = cur1()))
}
fn s57_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##"& > * { content: rgba(0, 0, 0, 15%); border-left: ${v0}; margin: red; } transition: ${v1};"##, v0 = 'a: { break 'a C_0 }, v1 = [C_1; 2][1]))
}
fn s57_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"& > * { content: rgba(0, 0, 0, 15%); border-left: ${v0}; margin: red; } transition: ${v1};"##, v0 = const_now(0), v1 = cur1()))
}
fn s57_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"& > * { content: rgba(0, 0, 0, 15%); border-left: ${v0}; margin: red; } transition: ${v1};"##, v0 = if v.me() { v(0) } else { v(99) }, v1 = now!(1)))
}
fn s57_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(& > * { content: rgba(0, 0, 0, 15%); border-left: ${C_0}; margin: red; } transition: ${C_1.me()};))
}
fn s57_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(& > * { content: rgba(0, 0, 0, 15%); border-left: ${cur0()}; margin: red; } transition: ${AT_1};))
}
fn s57_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(& > * { content: rgba(0, 0, 0, 15%); border-left: ${C_0 as Now<0>}; margin: red; } transition: ${NOW[1]};))
}
fn s57_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(& > * { content: rgba(0, 0, 0, 15%); border-left: ${Box::new(v(0))}; margin: red; } transition: ${{ const S: NowAt = NowAt(1); S }};))
}
fn s58_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = &AT_0))
}
fn s58_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${&AT_0};))
}
fn s59_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"@media ${v0} { color: red; }"##, v0 = &AT_0))
}
fn s59_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${&AT_0} { color: red; }))
}
fn s60_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = &mut Now::<0>))
}
fn s60_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${&mut Now::<0>};))
}
fn s61_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".${v0}:hover { margin: 0 auto; }"##, v0 = &mut Now::<0>))
}
fn s61_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.${&mut Now::<0>}:hover { margin: 0 auto; }))
}
fn s62_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = &v(0)))
}
fn s62_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(color: ${&v(0)};))
}
fn s63_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(${&v(0)}: red;))
}
fn s64_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = 'a: { break 'a C_0 }))
}
fn s64_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${'a: { break 'a C_0 }};))
}
fn s65_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".a, ${v0} { margin: 0 auto; }"##, v0 = 'a: { break 'a C_0 }))
}
fn s65_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.a, ${'a: { break 'a C_0 }} { margin: 0 auto; }))
}
fn s66_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = (&&C_0)))
}
fn s66_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${(&&C_0)};))
}
fn s67_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"@media ${v0} { color: red; }"##, v0 = (&&C_0)))
}
fn s67_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${(&&C_0)} { color: red; }))
}
fn s68_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = (C_0,).0))
}
fn s68_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${(C_0,).0};))
}
fn s69_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".${v0}:hover { margin: 0 auto; }"##, v0 = (C_0,).0))
}
fn s69_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.${(C_0,).0}:hover { margin: 0 auto; }))
}
fn s70_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = (v(0))))
}
fn s70_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(color: ${(v(0))};))
}
fn s71_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(${(v(0))}: red;))
}
fn s72_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = (|| NowAt(0))()))
}
fn s72_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${(|| NowAt(0))()};))
}
fn s73_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".a, ${v0} { margin: 0 auto; }"##, v0 = (|| NowAt(0))()))
}
fn s73_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.a, ${(|| NowAt(0))()} { margin: 0 auto; }))
}
fn s74_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = *&C_0))
}
fn s74_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${*&C_0};))
}
fn s75_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"@media ${v0} { color: red; }"##, v0 = *&C_0))
}
fn s75_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${*&C_0} { color: red; }))
}
fn s76_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = -C_0))
}
fn s76_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${-C_0};))
}
fn s77_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".${v0}:hover { margin: 0 auto; }"##, v0 = -C_0))
}
fn s77_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.${-C_0}:hover { margin: 0 auto; }))
}
fn s78_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = <Now<0> as HasNow>::VALUE))
}
fn s78_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${<Now<0> as HasNow>::VALUE};))
}
fn s79_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(${<Now<0> as HasNow>::VALUE}: red;))
}
fn s80_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = AT_0))
}
fn s80_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${AT_0};))
}
fn s81_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".a, ${v0} { margin: 0 auto; }"##, v0 = AT_0))
}
fn s81_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.a, ${AT_0} { margin: 0 auto; }))
}
fn s82_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = AT_0.0.max(0).at()))
}
fn s82_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${AT_0.0.max(0).at()};))
}
fn s83_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"@media ${v0} { color: red; }"##, v0 = AT_0.0.max(0).at()))
}
fn s83_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${AT_0.0.max(0).at()} { color: red; }))
}
fn s84_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = AT_0.to_string().as_str()))
}
fn s84_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${AT_0.to_string().as_str()};))
}
fn s85_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".${v0}:hover { margin: 0 auto; }"##, v0 = AT_0.to_string().as_str()))
}
fn s85_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.${AT_0.to_string().as_str()}:hover { margin: 0 auto; }))
}
fn s86_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = Box::new(v(0))))
}
fn s86_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(color: ${Box::new(v(0))};))
}
fn s87_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(${Box::new(v(0))}: red;))
}
fn s88_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = C_0))
}
fn s88_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${C_0};))
}
fn s89_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".a, ${v0} { margin: 0 auto; }"##, v0 = C_0))
}
fn s89_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.a, ${C_0} { margin: 0 auto; }))
}
fn s90_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = C_0 as Now<0>))
}
fn s90_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${C_0 as Now<0>};))
}
fn s91_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"@media ${v0} { color: red; }"##, v0 = C_0 as Now<0>))
}
fn s91_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${C_0 as Now<0>} { color: red; }))
}
fn s92_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = C_0.me()))
}
fn s92_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${C_0.me()};))
}
fn s93_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".${v0}:hover { margin: 0 auto; }"##, v0 = C_0.me()))
}
fn s93_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.${C_0.me()}:hover { margin: 0 auto; }))
}
fn s94_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = NOW[0..].first().unwrap()))
}
fn s94_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${NOW[0..].first().unwrap()};))
}
fn s95_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(${NOW[0..].first().unwrap()}: red;))
}
fn s96_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = NOW[0]))
}
fn s96_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${NOW[0]};))
}
fn s97_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".a, ${v0} { margin: 0 auto; }"##, v0 = NOW[0]))
}
fn s97_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.a, ${NOW[0]} { margin: 0 auto; }))
}
fn s98_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = Now::<0>))
}
fn s98_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${Now::<0>};))
}
fn s99_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"@media ${v0} { color: red; }"##, v0 = Now::<0>))
}
fn s99_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${Now::<0>} { color: red; }))
}
fn s100_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = Now::<0>::VALUE))
}
fn s100_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${Now::<0>::VALUE};))
}
fn s101_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".${v0}:hover { margin: 0 auto; }"##, v0 = Now::<0>::VALUE))
}
fn s101_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.${Now::<0>::VALUE}:hover { margin: 0 auto; }))
}
fn s102_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = Now::<0>::default()))
}
fn s102_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${Now::<0>::default()};))
}
fn s103_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(${Now::<0>::default()}: red;))
}
fn s104_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = Pair { 0: C_0, 1: 2 }.0))
}
fn s104_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${Pair { 0: C_0, 1: 2 }.0};))
}
fn s105_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".a, ${v0} { margin: 0 auto; }"##, v0 = Pair { 0: C_0, 1: 2 }.0))
}
fn s105_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.a, ${Pair { 0: C_0, 1: 2 }.0} { margin: 0 auto; }))
}
fn s106_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = Pair(C_0, 0) + Pair(Now, 1)))
}
fn s106_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${Pair(C_0, 0) + Pair(Now, 1)};))
}
fn s107_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"@media ${v0} { color: red; }"##, v0 = Pair(C_0, 0) + Pair(Now, 1)))
}
fn s107_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${Pair(C_0, 0) + Pair(Now, 1)} { color: red; }))
}
fn s108_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = Pair(C_0, 1).0))
}
fn s108_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${Pair(C_0, 1).0};))
}
fn s109_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".${v0}:hover { margin: 0 auto; }"##, v0 = Pair(C_0, 1).0))
}
fn s109_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.${Pair(C_0, 1).0}:hover { margin: 0 auto; }))
}
fn s110_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = [C_0; 2][1]))
}
fn s110_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${[C_0; 2][1]};))
}
fn s111_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(${[C_0; 2][1]}: red;))
}
fn s112_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = [NowAt(0)][0]))
}
fn s112_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${[NowAt(0)][0]};))
}
fn s113_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".a, ${v0} { margin: 0 auto; }"##, v0 = [NowAt(0)][0]))
}
fn s113_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.a, ${[NowAt(0)][0]} { margin: 0 auto; }))
}
fn s114_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = const { NowAt(0) }))
}
fn s114_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${const { NowAt(0) }};))
}
fn s115_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"@media ${v0} { color: red; }"##, v0 = const { NowAt(0) }))
}
fn s115_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${const { NowAt(0) }} { color: red; }))
}
fn s116_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = const_now(0)))
}
fn s116_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${const_now(0)};))
}
fn s117_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".${v0}:hover { margin: 0 auto; }"##, v0 = const_now(0)))
}
fn s117_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.${const_now(0)}:hover { margin: 0 auto; }))
}
fn s118_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = consts::AT_0))
}
fn s118_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${consts::AT_0};))
}
fn s119_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(${consts::AT_0}: red;))
}
fn s120_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = crate::Now::<0>.me()))
}
fn s120_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${crate::Now::<0>.me()};))
}
fn s121_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".a, ${v0} { margin: 0 auto; }"##, v0 = crate::Now::<0>.me()))
}
fn s121_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.a, ${crate::Now::<0>.me()} { margin: 0 auto; }))
}
fn s122_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = cur0()))
}
fn s122_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${cur0()};))
}
fn s123_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"@media ${v0} { color: red; }"##, v0 = cur0()))
}
fn s123_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${cur0()} { color: red; }))
}
fn s124_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = format!("{}", v(0))))
}
fn s124_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(color: ${format!("{}", v(0))};))
}
fn s125_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##".${v0}:hover { margin: 0 auto; }"##, v0 = format!("{}", v(0))))
}
fn s125_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(.${format!("{}", v(0))}:hover { margin: 0 auto; }))
}
fn s126_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = if true { C_0 } else { Now }))
}
fn s126_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${if true { C_0 } else { Now }};))
}
fn s127_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(${if true { C_0 } else { Now }}: red;))
}
fn s128_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = if v.me() { v(0) } else { v(99) }))
}
fn s128_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(color: ${if v.me() { v(0) } else { v(99) }};))
}
fn s129_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##".a, ${v0} { margin: 0 auto; }"##, v0 = if v.me() { v(0) } else { v(99) }))
}
fn s129_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(.a, ${if v.me() { v(0) } else { v(99) }} { margin: 0 auto; }))
}
fn s130_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let local0 = v(0);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = local0))
}
fn s130_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let local0 = v(0);
    Made::Style(stylist::style!(color: ${local0};))
}
fn s131_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let local0 = v(0);
    Made::Global(stylist::global_style!(r##"@media ${v0} { color: red; }"##, v0 = local0))
}
fn s131_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let local0 = v(0);
    Made::Global(stylist::global_style!(@media ${local0} { color: red; }))
}
fn s132_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = loop { break v(0) }))
}
fn s132_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(color: ${loop { break v(0) }};))
}
fn s133_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##".${v0}:hover { margin: 0 auto; }"##, v0 = loop { break v(0) }))
}
fn s133_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(.${loop { break v(0) }}:hover { margin: 0 auto; }))
}
fn s134_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = match 1 { _ => v(0) }))
}
fn s134_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(color: ${match 1 { _ => v(0) }};))
}
fn s135_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(${match 1 { _ => v(0) }}: red;))
}
fn s136_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = me(v(0))))
}
fn s136_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(color: ${me(v(0))};))
}
fn s137_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##".a, ${v0} { margin: 0 auto; }"##, v0 = me(v(0))))
}
fn s137_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(.a, ${me(v(0))} { margin: 0 auto; }))
}
fn s138_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = now!(0)))
}
fn s138_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${now!(0)};))
}
fn s139_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"@media ${v0} { color: red; }"##, v0 = now!(0)))
}
fn s139_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${now!(0)} { color: red; }))
}
fn s140_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = now(0)))
}
fn s140_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${now(0)};))
}
fn s141_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".${v0}:hover { margin: 0 auto; }"##, v0 = now(0)))
}
fn s141_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.${now(0)}:hover { margin: 0 auto; }))
}
fn s142_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = std::convert::identity(C_0)))
}
fn s142_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${std::convert::identity(C_0)};))
}
fn s143_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(${std::convert::identity(C_0)}: red;))
}
fn s144_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = unsafe { NOW.get_unchecked(0) }))
}
fn s144_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${unsafe { NOW.get_unchecked(0) }};))
}
fn s145_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".a, ${v0} { margin: 0 auto; }"##, v0 = unsafe { NOW.get_unchecked(0) }))
}
fn s145_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.a, ${unsafe { NOW.get_unchecked(0) }} { margin: 0 auto; }))
}
fn s146_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = unsafe { cur0() }))
}
fn s146_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${unsafe { cur0() }};))
}
fn s147_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"@media ${v0} { color: red; }"##, v0 = unsafe { cur0() }))
}
fn s147_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${unsafe { cur0() }} { color: red; }))
}
fn s148_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = v(0)))
}
fn s148_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(color: ${v(0)};))
}
fn s149_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##".${v0}:hover { margin: 0 auto; }"##, v0 = v(0)))
}
fn s149_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(.${v(0)}:hover { margin: 0 auto; }))
}
fn s150_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = v(0).to_string()))
}
fn s150_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(color: ${v(0).to_string()};))
}
fn s151_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(${v(0).to_string()}: red;))
}
fn s152_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = { C_0 }))
}
fn s152_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${{ C_0 }};))
}
fn s153_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".a, ${v0} { margin: 0 auto; }"##, v0 = { C_0 }))
}
fn s153_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.a, ${{ C_0 }} { margin: 0 auto; }))
}
fn s154_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = { const S: NowAt = NowAt(0); S }))
}
fn s154_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Style(stylist::style!(color: ${{ const S: NowAt = NowAt(0); S }};))
}
fn s155_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(r##"@media ${v0} { color: red; }"##, v0 = { const S: NowAt = NowAt(0); S }))
}
fn s155_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Global(stylist::global_style!(@media ${{ const S: NowAt = NowAt(0); S }} { color: red; }))
}
fn s156_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(r##"color: ${v0};"##, v0 = { static S: NowAt = NowAt(0); &S }))
}
fn s156_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Source(stylist::css!(color: ${{ static S: NowAt = NowAt(0); &S }};))
}
fn s157_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(r##".${v0}:hover { margin: 0 auto; }"##, v0 = { static S: NowAt = NowAt(0); &S }))
}
fn s157_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    let _now = enter(v);
    Made::Sheet(stylist::ast::sheet!(.${{ static S: NowAt = NowAt(0); &S }}:hover { margin: 0 auto; }))
}
fn s158_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"color: ${v0};"##, v0 = { v(0) }))
}
fn s158_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(color: ${{ v(0) }};))
}
fn s159_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(${{ v(0) }}: red;))
}
fn s160_l0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"content: "{"; --my-var: "}{ $ $$ $x";"##))
}
fn s160_i0<'a>(_v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(content: "{"; --my-var: "}{ $ $$ $x";))
}
fn s161_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"a[href$=".pdf"] { color: ${v0}; }"##, v0 = v(0)))
}
fn s161_i1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(a[href$=".pdf"] { color: ${v(0)}; }))
}
fn s162_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"grid-row: ${v0}/${v1};"##, v0 = v(0), v1 = v(1)))
}
fn s162_i2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(grid-row: ${v(0)}/${v(1)};))
}
fn s163_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"content: "a"/${v0};"##, v0 = v(0)))
}
fn s163_i3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(content: "a"/${v(0)};))
}
fn s164_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"@media(min-width: ${v0}) { .a { @supports(display: ${v1}) { color: red; } } }"##, v0 = v(0), v1 = v(1)))
}
fn s164_i0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(@media(min-width: ${v(0)}) { .a { @supports(display: ${v(1)}) { color: red; } } }))
}
fn s165_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"margin: 1px /* it's $ { ; */ ${v0};"##, v0 = v(0)))
}
fn s166_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"background: url(data:image/png;base64,iVBO/+==) ${v0}, url(x;${v1});"##, v0 = v(0), v1 = v(1)))
}
fn s167_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##".a /* don't & */ & .${v0}, /* & */ .b /* & */ .c { color: red; }"##, v0 = v(0)))
}
fn s168_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"@media
	screen /* don't; */ and ${v0} { color: red; }"##, v0 = v(0)))
}
fn s169_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"color: ${v0}; margin: 1px ${v0} 2px;"##, v0 = v(0)))
}
fn s170_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"color: ${v0}; margin: 1px ${v0} 2px;"##, v0 = { v(0) }))
}
fn s171_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##"color: ${v0}; margin: 1px ${v0} 2px;"##, v0 = v(0).to_string()))
}
fn s172_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##"color: x(${v0}) ${v0}; @media print { .a { content: ${v0}; } }"##, v0 = v(0)))
}
fn s173_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##"color: x(${v0}) ${v0}; @media print { .a { content: ${v0}; } }"##, v0 = { v(0) }))
}
fn s174_l2<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Style(stylist::style!(r##"color: x(${v0}) ${v0}; @media print { .a { content: ${v0}; } }"##, v0 = v(0).to_string()))
}
fn s175_l3<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Global(stylist::global_style!(r##".${v0} > .b, &.${v0}:hover { margin: 0 auto; } .a .${v0} { --my-var: ${v0}; }"##, v0 = v(0)))
}
fn s176_l0<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Source(stylist::css!(r##".${v0} > .b, &.${v0}:hover { margin: 0 auto; } .a .${v0} { --my-var: ${v0}; }"##, v0 = { v(0) }))
}
fn s177_l1<'a>(v: &'a dyn Fn(usize) -> V<'a>) -> Made {
    Made::Sheet(stylist::ast::sheet!(r##".${v0} > .b, &.${v0}:hover { margin: 0 auto; } .a .${v0} { --my-var: ${v0}; }"##, v0 = v(0).to_string()))
}
pub const SITES: &[Site] = &[
    Site { model: r##"{"items": [{"decl": ["margin", "red !important"]}, {"block": {"sels": ["&:hover"], "body": [{"decl": ["border-left", "3px 3px red, -1rem 0 0.4rem olive"]}]}}, {"at": {"cond": "@supports (display: grid) and (not (display: inline-grid))", "body": [{"block": {"sels": ["::before"], "body": [{"at": {"cond": "@supports not (display: grid)", "body": [{"decl": ["color", "\" (\" attr(x) \")\""]}]}}]}}, {"decl": ["content", "\"${}\""]}]}}]}"##, slots: "", makes: &[s0_l0, s0_l1, s0_l2, s0_l3] },
    Site { model: r##"{"items": [{"block": {"sels": ["[title=\"a,b\"]"], "body": [{"at": {"cond": "@supports (display: grid)", "body": [{"decl": ["color", "\"</style>\""]}]}}]}}]}"##, slots: "", makes: &[s1_l0, s1_l3, s1_i0, s1_i1] },
    Site { model: r##"{"items": [{"decl": ["-webkit-mask", "10px"]}]}"##, slots: "", makes: &[s2_l1, s2_l2, s2_i0, s2_i2] },
    Site { model: r##"{"items": [{"decl": ["color", "10px"]}, {"block": {"sels": ["&.big", "&.big"], "body": [{"decl": ["margin", "medium dashed green"]}]}}, {"at": {"cond": "@media not all and (monochrome)", "body": [{"decl": ["content", "\"${}\""]}]}}]}"##, slots: "", makes: &[s3_l0, s3_l1, s3_l2, s3_l3] },
    Site { model: r##"{"items": [{"at": {"cond": "@supports (display: grid)", "body": [{"decl": ["-webkit-mask", "rgba(0, 0, 0, 15%)"]}]}}]}"##, slots: "", makes: &[s4_l2, s4_l3, s4_i2, s4_i3] },
    Site { model: r##"{"items": [{"decl": ["margin", "\"日本語\""]}, {"decl": ["--my-var", "\"日本語\""]}, {"decl": ["margin", "\" (\" attr(x) \")\""]}]}"##, slots: "", makes: &[s5_l0, s5_l2, s5_i0, s5_i1] },
    Site { model: r##"{"items": [{"decl": ["border-left", "red"]}, {"block": {"sels": [".a", "article span"], "body": [{"decl": ["color", "3px 3px red, -1rem 0 0.4rem olive"]}]}}, {"block": {"sels": ["& p"], "body": [{"decl": ["transition", "medium dashed green"]}]}}, {"decl": ["-webkit-mask", "\"日本語\""]}]}"##, slots: "", makes: &[s6_l0, s6_l1, s6_l2, s6_l3, s6_i0, s6_i1, s6_i2, s6_i3] },
    Site { model: r##"{"items": [{"block": {"sels": ["&:hover"], "body": [{"decl": ["background-color", "\"</style>\""]}, {"decl": ["color", "3px 3px red, -1rem 0 0.4rem olive"]}]}}]}"##, slots: "", makes: &[s7_l2, s7_l3, s7_i1, s7_i2] },
    Site { model: r##"{"items": [{"decl": ["-webkit-mask", "rgba(0, 0, 0, 15%)"]}, {"decl": ["color", "\" (\" attr(x) \")\""]}, {"decl": ["background-color", "inset 0 1px 2px blue"]}]}"##, slots: "", makes: &[s8_l1, s8_l3, s8_i1, s8_i2] },
    Site { model: r##"{"items": [{"block": {"sels": ["#id"], "body": [{"decl": ["transition", "\"日本語\""]}, {"decl": ["--my-var", "\" (\" attr(x) \")\""]}]}}]}"##, slots: "", makes: &[s9_l0, s9_l1, s9_l2, s9_l3, s9_i0, s9_i1, s9_i2, s9_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "\"</style>\""]}, {"decl": ["margin", "\"</style>\""]}, {"decl": ["color", "\"日本語\""]}, {"at": {"cond": "@media screen and (max-width: 500px)", "body": [{"block": {"sels": ["[title=\"a,b\"]"], "body": [{"decl": ["--my-var", "10px"]}, {"decl": ["background-color", "inset 0 1px 2px blue"]}]}}, {"decl": ["margin", "url(\"images/pdf.png\")"]}]}}]}"##, slots: "", makes: &[s10_l0, s10_l1, s10_i0, s10_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "url(\"images/pdf.png\")"]}, {"block": {"sels": ["#id", "& ~ nav"], "body": [{"at": {"cond": "@media (min-width: 3px) and (max-width: 9px), print", "body": [{"decl": ["border-left", "\"a  b\""]}]}}, {"decl": ["--my-var", "red"]}]}}]}"##, slots: "", makes: &[s11_l0, s11_l3, s11_i1, s11_i3] },
    Site { model: r##"{"items": [{"at": {"cond": "@supports not (display: grid)", "body": [{"block": {"sels": ["& > *"], "body": [{"decl": ["transition", "3px 3px red, -1rem 0 0.4rem olive"]}, {"decl": ["background-color", "\"日本語\""]}, {"decl": ["background-color", "rgba(0, 0, 0, 15%)"]}]}}]}}, {"decl": ["-webkit-mask", "calc(100% - 2px)"]}]}"##, slots: "", makes: &[s12_l0, s12_l1, s12_l2, s12_l3] },
    Site { model: r##"{"items": [{"decl": ["margin", "\" (\" attr(x) \")\""]}]}"##, slots: "", makes: &[s13_l2, s13_l3, s13_i0, s13_i1] },
    Site { model: r##"{"items": [{"at": {"cond": "@supports (display: grid)", "body": [{"block": {"sels": ["a ⟦0⟧", "&:hover"], "body": [{"decl": ["border-left", "red"]}, {"decl": ["--my-var", "⟦1⟧"]}]}}]}}, {"at": {"cond": "@media ⟦2⟧", "body": [{"block": {"sels": ["⟦3⟧"], "body": [{"decl": ["border-left", "red"]}]}}, {"block": {"sels": ["&.⟦4⟧:hover"], "body": [{"decl": ["-webkit-mask", "\"${}\""]}]}}]}}, {"decl": ["margin", "10px"]}, {"decl": ["content", "rgb(⟦5⟧, 3, ⟦6⟧)"]}]}"##, slots: "svcsnvv", makes: &[s14_l0, s14_l2] },
    Site { model: r##"{"items": [{"block": {"sels": [".x:not(.y)", "footer > p"], "body": [{"decl": ["margin", "⟦0⟧"]}]}}, {"decl": ["content", "#9799a7"]}, {"decl": ["border-left", "\"日本語\""]}, {"block": {"sels": [".a", "⟦1⟧"], "body": [{"decl": ["content", "⟦2⟧"]}]}}]}"##, slots: "vsv", makes: &[s15_l0, s15_l1, s15_l2, s15_l3, s15_i0, s15_i1, s15_i2, s15_i3] },
    Site { model: r##"{"items": [{"block": {"sels": ["&:hover"], "body": [{"decl": ["color", "\"</style>\""]}, {"decl": ["background-color", "\" (\" attr(x) \")\""]}, {"decl": ["⟦0⟧", "0 auto"]}]}}, {"at": {"cond": "@media (min-width: 3px) and (max-width: 9px), print", "body": [{"decl": ["-webkit-mask", "⟦1⟧"]}, {"decl": ["transition", "⟦2⟧"]}]}}]}"##, slots: "pvv", makes: &[s16_i1, s16_i2] },
    Site { model: r##"{"items": [{"decl": ["-webkit-mask", "solid ⟦0⟧ 1px"]}, {"block": {"sels": ["& > *"], "body": [{"decl": ["margin", "rgb(⟦1⟧, 3, ⟦2⟧)"]}, {"decl": ["color", "color ⟦3⟧ ease, margin ⟦4⟧"]}]}}, {"block": {"sels": ["#id", "header"], "body": [{"decl": ["-webkit-mask", "rotate(⟦5⟧)"]}]}}, {"at": {"cond": "@media ⟦6⟧", "body": [{"block": {"sels": ["a ⟦7⟧"], "body": [{"decl": ["color", "\"</style>\""]}]}}]}}]}"##, slots: "vvvvvvcs", makes: &[s17_l0, s17_l1] },
    Site { model: r##"{"items": [{"at": {"cond": "@media screen", "body": [{"decl": ["transition", "rotate(⟦0⟧)"]}]}}]}"##, slots: "v", makes: &[s18_l0, s18_l1, s18_l2, s18_l3, s18_i0, s18_i1, s18_i2, s18_i3] },
    Site { model: r##"{"items": [{"block": {"sels": ["header"], "body": [{"decl": ["border-left", "url(\"images/pdf.png\")"]}, {"at": {"cond": "@media (min-width: 3px) and (max-width: 9px), print", "body": [{"decl": ["margin", "red"]}]}}, {"decl": ["--my-var", "⟦0⟧"]}]}}]}"##, slots: "v", makes: &[s19_l1, s19_l3, s19_i1, s19_i2] },
    Site { model: r##"{"items": [{"block": {"sels": ["⟦0⟧", "&.big"], "body": [{"decl": ["margin", "⟦1⟧"]}, {"decl": ["--my-var", "color ⟦2⟧ ease, margin ⟦3⟧"]}]}}, {"decl": ["content", "color ⟦4⟧ ease, margin ⟦5⟧"]}, {"at": {"cond": "@media ⟦6⟧", "body": [{"decl": ["border-left", "\"日本語\""]}]}}, {"block": {"sels": ["&.⟦7⟧:hover"], "body": [{"decl": ["transition", "\"</style>\""]}]}}]}"##, slots: "svvvvvcn", makes: &[s20_l1, s20_l2] },
    Site { model: r##"{"items": [{"block": {"sels": ["⟦0⟧", "footer > p"], "body": [{"decl": ["border-left", "\"a  b\""]}, {"at": {"cond": "@media ⟦1⟧", "body": [{"decl": ["⟦2⟧", "\"a  b\""]}]}}, {"decl": ["color", "⟦3⟧"]}]}}]}"##, slots: "scpv", makes: &[s21_i0, s21_i1, s21_i2, s21_i3] },
    Site { model: r##"{"items": [{"decl": ["border-left", "0 auto"]}, {"decl": ["border-left", "3px 3px red, -1rem 0 0.4rem olive"]}, {"decl": ["⟦0⟧", "red"]}, {"decl": ["⟦1⟧", "⟦2⟧"]}]}"##, slots: "ppv", makes: &[s22_i0, s22_i2] },
    Site { model: r##"{"items": [{"decl": ["--my-var", "⟦0⟧"]}, {"at": {"cond": "@media ⟦1⟧", "body": [{"frames": {"name": "spin", "frames": [{"at": "from", "decls": [["--my-var", "\"日本語\""]]}, {"at": "50%", "decls": [["color", "10px"]]}]}}, {"decl": ["transition", "⟦2⟧"]}]}}]}"##, slots: "vcv", makes: &[s23_l1, s23_l2] },
    Site { model: r##"{"items": [{"at": {"cond": "@supports selector(a:not(.b))", "body": [{"block": {"sels": ["::before"], "body": [{"decl": ["background-color", "10px"]}, {"decl": ["background-color", "⟦0⟧"]}]}}]}}]}"##, slots: "v", makes: &[s24_l0, s24_l1, s24_l2, s24_l3, s24_i0, s24_i1, s24_i2, s24_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "rgba(0, 0, 0, 15%)"]}, {"block": {"sels": ["footer > p"], "body": [{"decl": ["--my-var", "\"</style>\""]}, {"decl": ["--my-var", "⟦0⟧"]}]}}]}"##, slots: "v", makes: &[s25_l1, s25_l2, s25_i1, s25_i2] },
    Site { model: r##"{"items": [{"decl": ["margin", "rotate(⟦0⟧)"]}, {"block": {"sels": [".p > .⟦1⟧"], "body": [{"decl": ["-webkit-mask", "color ⟦2⟧ ease, margin ⟦3⟧"]}, {"decl": ["color", "\"</style>\""]}, {"decl": ["color", "⟦4⟧"]}]}}, {"at": {"cond": "@media screen and ⟦5⟧", "body": [{"decl": ["color", "⟦6⟧"]}, {"block": {"sels": ["& > *"], "body": [{"decl": ["margin", "⟦7⟧"]}, {"decl": ["transition", "rgba(0, 0, 0, 15%)"]}]}}]}}]}"##, slots: "vnvvvcvv", makes: &[s26_l1, s26_l2] },
    Site { model: r##"{"items": [{"block": {"sels": ["&.⟦0⟧:hover"], "body": [{"decl": ["-webkit-mask", "⟦1⟧"]}]}}]}"##, slots: "nv", makes: &[s27_l0, s27_l1, s27_l2, s27_l3, s27_i0, s27_i1, s27_i2, s27_i3] },
    Site { model: r##"{"items": [{"block": {"sels": ["&.big"], "body": [{"decl": ["margin", "⟦0⟧"]}]}}, {"decl": ["-webkit-mask", "rotate(⟦1⟧)"]}]}"##, slots: "vv", makes: &[s28_l1, s28_l2, s28_i0, s28_i1] },
    Site { model: r##"{"items": [{"decl": ["content", "rgba(0, 0, 0, 15%)"]}, {"at": {"cond": "@media screen", "body": [{"block": {"sels": [".p > .⟦0⟧"], "body": [{"decl": ["-webkit-mask", "⟦1⟧"]}, {"decl": ["background-color", "⟦2⟧"]}, {"decl": ["color", "10px"]}]}}, {"decl": ["border-left", "3px 3px red, -1rem 0 0.4rem olive"]}]}}, {"block": {"sels": [".⟦3⟧", "& > *"], "body": [{"decl": ["border-left", "3px 3px red, -1rem 0 0.4rem olive"]}, {"decl": ["color", "solid ⟦4⟧ 1px"]}]}}]}"##, slots: "nvvnv", makes: &[s29_l1, s29_l2] },
    Site { model: r##"{"items": [{"decl": ["--my-var", "⟦0⟧"]}]}"##, slots: "v", makes: &[s30_l0, s30_l1, s30_l2, s30_l3, s30_i0, s30_i1, s30_i2, s30_i3] },
    Site { model: r##"{"items": [{"block": {"sels": ["&:hover", ":hover"], "body": [{"decl": ["color", "rotate(⟦0⟧)"]}]}}]}"##, slots: "v", makes: &[s31_l0, s31_l3, s31_i0, s31_i1] },
    Site { model: r##"{"items": [{"at": {"cond": "@media not all and (monochrome)", "body": [{"block": {"sels": ["⟦0⟧"], "body": [{"decl": ["margin", "⟦1⟧"]}]}}]}}, {"block": {"sels": ["header"], "body": [{"decl": ["--my-var", "\"</style>\""]}]}}]}"##, slots: "sv", makes: &[s32_l0, s32_l1, s32_i2, s32_i3] },
    Site { model: r##"{"items": [{"block": {"sels": ["⟦0⟧"], "body": [{"at": {"cond": "@supports not (display: grid)", "body": [{"decl": ["transition", "rgba(0, 0, 0, 15%)"]}]}}]}}, {"block": {"sels": [":hover"], "body": [{"decl": ["margin", "rgb(⟦1⟧, 3, ⟦2⟧)"]}, {"decl": ["background-color", "⟦3⟧"]}]}}]}"##, slots: "svvv", makes: &[s33_l0, s33_l1, s33_l2, s33_l3, s33_i0, s33_i1, s33_i2, s33_i3] },
    Site { model: r##"{"items": [{"decl": ["-webkit-mask", "⟦0⟧"]}, {"decl": ["transition", "red"]}]}"##, slots: "v", makes: &[s34_l0, s34_l3, s34_i1, s34_i3] },
    Site { model: r##"{"items": [{"decl": ["margin", "rotate(⟦0⟧)"]}]}"##, slots: "v", makes: &[s35_l0, s35_l2, s35_i0, s35_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"block": {"sels": [".p > .⟦1⟧"], "body": [{"decl": ["border-left", "rgba(0, 0, 0, 15%)"]}, {"decl": ["⟦2⟧", "\" (\" attr(x) \")\""]}]}}]}}, {"decl": ["-webkit-mask", "⟦3⟧"]}]}"##, slots: "cnpv", makes: &[s36_i0, s36_i1, s36_i2, s36_i3] },
    Site { model: r##"{"items": [{"decl": ["--my-var", "⟦0⟧"]}, {"decl": ["background-color", "\" (\" attr(x) \")\""]}]}"##, slots: "v", makes: &[s37_l0, s37_l3, s37_i1, s37_i3] },
    Site { model: r##"{"items": [{"frames": {"name": "spin", "frames": [{"at": "from", "decls": [["--my-var", "10px"]]}, {"at": "50%", "decls": [["--my-var", "solid ⟦0⟧ 1px"]]}]}}, {"decl": ["color", "solid ⟦1⟧ 1px"]}]}"##, slots: "vv", makes: &[s38_l1, s38_l2] },
    Site { model: r##"{"items": [{"block": {"sels": ["& > *", "⟦0⟧"], "body": [{"decl": ["color", "rotate(⟦1⟧)"]}, {"decl": ["border-left", "\"日本語\""]}]}}, {"block": {"sels": ["&:hover"], "body": [{"decl": ["margin", "rotate(⟦2⟧)"]}]}}]}"##, slots: "svv", makes: &[s39_l0, s39_l1, s39_l2, s39_l3, s39_i0, s39_i1, s39_i2, s39_i3] },
    Site { model: r##"{"items": [{"decl": ["--my-var", "⟦0⟧"]}, {"at": {"cond": "@supports selector(a:not(.b))", "body": [{"decl": ["-webkit-mask", "⟦1⟧"]}]}}]}"##, slots: "vv", makes: &[s40_l2, s40_l3, s40_i2, s40_i3] },
    Site { model: r##"{"items": [{"decl": ["--my-var", "3px 3px red, -1rem 0 0.4rem olive"]}, {"decl": ["--my-var", "⟦0⟧"]}, {"decl": ["content", "rgb(⟦1⟧, 3, ⟦2⟧)"]}]}"##, slots: "vvv", makes: &[s41_l1, s41_l3, s41_i2, s41_i3] },
    Site { model: r##"{"items": [{"decl": ["-webkit-mask", "medium dashed green"]}, {"decl": ["transition", "rgb(⟦0⟧, 3, ⟦1⟧)"]}]}"##, slots: "vv", makes: &[s42_l0, s42_l1, s42_l2, s42_l3, s42_i0, s42_i1, s42_i2, s42_i3] },
    Site { model: r##"{"items": [{"block": {"sels": ["⟦0⟧", "&.⟦1⟧:hover"], "body": [{"decl": ["color", "rgb(⟦2⟧, 3, ⟦3⟧)"]}, {"at": {"cond": "@supports not (display: grid)", "body": [{"decl": ["border-left", "inset 0 1px 2px blue"]}]}}]}}]}"##, slots: "snvv", makes: &[s43_l2, s43_l3, s43_i0, s43_i2] },
    Site { model: r##"{"items": [{"frames": {"name": "spin", "frames": [{"at": "from", "decls": [["transition", "3px 3px red, -1rem 0 0.4rem olive"]]}, {"at": "50%", "decls": [["background-color", "\"</style>\""]]}]}}, {"at": {"cond": "@media screen and ⟦0⟧", "body": [{"block": {"sels": ["[title=\"a,b\"]"], "body": [{"decl": ["transition", "⟦1⟧"]}]}}, {"block": {"sels": ["article span"], "body": [{"at": {"cond": "@media (min-width: 3px) and (max-width: 9px), print", "body": [{"decl": ["--my-var", "solid ⟦2⟧ 1px"]}]}}, {"decl": ["color", "⟦3⟧"]}, {"decl": ["-webkit-mask", "rgba(0, 0, 0, 15%)"]}]}}]}}]}"##, slots: "cvvv", makes: &[s44_l1, s44_l2] },
    Site { model: r##"{"items": [{"decl": ["transition", "⟦0⟧"]}]}"##, slots: "v", makes: &[s45_l0, s45_l1, s45_l2, s45_l3, s45_i0, s45_i1, s45_i2, s45_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}, {"block": {"sels": [".x:not(.y)", "footer > p"], "body": [{"at": {"cond": "@media print", "body": [{"decl": ["color", "\"</style>\""]}]}}]}}, {"decl": ["transition", "rgb(⟦1⟧, 3, ⟦2⟧)"]}]}"##, slots: "vvv", makes: &[s46_l1, s46_l2, s46_i0, s46_i2] },
    Site { model: r##"{"items": [{"decl": ["color", "red"]}, {"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "calc(100% - 2px)"]}, {"decl": ["--my-var", "rotate(⟦1⟧)"]}]}}, {"decl": ["margin", "color ⟦2⟧ ease, margin ⟦3⟧"]}, {"decl": ["border-left", "\"</style>\""]}]}"##, slots: "cvvv", makes: &[s47_l0, s47_l1] },
    Site { model: r##"{"items": [{"decl": ["-webkit-mask", "rgb(⟦0⟧, 3, ⟦1⟧)"]}]}"##, slots: "vv", makes: &[s48_l0, s48_l1, s48_l2, s48_l3, s48_i0, s48_i1, s48_i2, s48_i3] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["-webkit-mask", "⟦1⟧"]}]}}]}"##, slots: "cv", makes: &[s49_l0, s49_l2, s49_i1, s49_i3] },
    Site { model: r##"{"items": [{"block": {"sels": ["⟦0⟧"], "body": [{"decl": ["margin", "\"</style>\""]}, {"decl": ["content", "color ⟦1⟧ ease, margin ⟦2⟧"]}]}}]}"##, slots: "svv", makes: &[s50_l1, s50_l2] },
    Site { model: r##"{"items": [{"decl": ["--my-var", "10px"]}, {"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "⟦1⟧"]}, {"block": {"sels": [".p > .⟦2⟧", "article span"], "body": [{"at": {"cond": "@media ⟦3⟧", "body": [{"decl": ["--my-var", "rotate(⟦4⟧)"]}]}}]}}]}}]}"##, slots: "cvncv", makes: &[s51_l0, s51_l1, s51_l2, s51_l3, s51_i0, s51_i1, s51_i2, s51_i3] },
    Site { model: r##"{"items": [{"at": {"cond": "@supports selector(a:not(.b))", "body": [{"decl": ["⟦0⟧", "medium dashed green"]}]}}]}"##, slots: "p", makes: &[s52_i1, s52_i3] },
    Site { model: r##"{"items": [{"decl": ["border-left", "⟦0⟧"]}, {"decl": ["--my-var", "⟦1⟧"]}]}"##, slots: "vv", makes: &[s53_l0, s53_l3, s53_i0, s53_i2] },
    Site { model: r##"{"items": [{"block": {"sels": [".p > .⟦0⟧", "#id"], "body": [{"decl": ["--my-var", "rgba(0, 0, 0, 15%)"]}]}}]}"##, slots: "n", makes: &[s54_l0, s54_l1, s54_l2, s54_l3, s54_i0, s54_i1, s54_i2, s54_i3] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧"], "body": [{"decl": ["transition", "\"</style>\""]}]}}]}"##, slots: "n", makes: &[s55_l0, s55_l3, s55_i2, s55_i3] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"block": {"sels": ["& p", "⟦1⟧"], "body": [{"at": {"cond": "@media ⟦2⟧", "body": [{"decl": ["-webkit-mask", "\"日本語\""]}]}}, {"decl": ["border-left", "0 auto"]}, {"decl": ["transition", "#9799a7"]}]}}, {"block": {"sels": ["footer > p"], "body": [{"decl": ["content", "url(\"images/pdf.png\")"]}, {"decl": ["color", "rgb(⟦3⟧, 3, ⟦4⟧)"]}]}}]}}]}"##, slots: "cscvv", makes: &[s56_l0, s56_l1, s56_i2, s56_i3] },
    Site { model: r##"{"items": [{"block": {"sels": ["& > *"], "body": [{"decl": ["content", "rgba(0, 0, 0, 15%)"]}, {"decl": ["border-left", "⟦0⟧"]}, {"decl": ["margin", "red"]}]}}, {"decl": ["transition", "⟦1⟧"]}]}"##, slots: "vv", makes: &[s57_l0, s57_l1, s57_l2, s57_l3, s57_i0, s57_i1, s57_i2, s57_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s58_l2, s58_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s59_l3, s59_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s60_l0, s60_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "n", makes: &[s61_l1, s61_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s62_l2, s62_i2] },
    Site { model: r##"{"items": [{"decl": ["⟦0⟧", "red"]}]}"##, slots: "p", makes: &[s63_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s64_l0, s64_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".a", "⟦0⟧"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "s", makes: &[s65_l1, s65_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s66_l2, s66_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s67_l3, s67_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s68_l0, s68_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "n", makes: &[s69_l1, s69_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s70_l2, s70_i2] },
    Site { model: r##"{"items": [{"decl": ["⟦0⟧", "red"]}]}"##, slots: "p", makes: &[s71_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s72_l0, s72_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".a", "⟦0⟧"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "s", makes: &[s73_l1, s73_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s74_l2, s74_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s75_l3, s75_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s76_l0, s76_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "n", makes: &[s77_l1, s77_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s78_l2, s78_i2] },
    Site { model: r##"{"items": [{"decl": ["⟦0⟧", "red"]}]}"##, slots: "p", makes: &[s79_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s80_l0, s80_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".a", "⟦0⟧"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "s", makes: &[s81_l1, s81_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s82_l2, s82_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s83_l3, s83_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s84_l0, s84_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "n", makes: &[s85_l1, s85_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s86_l2, s86_i2] },
    Site { model: r##"{"items": [{"decl": ["⟦0⟧", "red"]}]}"##, slots: "p", makes: &[s87_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s88_l0, s88_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".a", "⟦0⟧"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "s", makes: &[s89_l1, s89_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s90_l2, s90_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s91_l3, s91_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s92_l0, s92_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "n", makes: &[s93_l1, s93_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s94_l2, s94_i2] },
    Site { model: r##"{"items": [{"decl": ["⟦0⟧", "red"]}]}"##, slots: "p", makes: &[s95_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s96_l0, s96_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".a", "⟦0⟧"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "s", makes: &[s97_l1, s97_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s98_l2, s98_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s99_l3, s99_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s100_l0, s100_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "n", makes: &[s101_l1, s101_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s102_l2, s102_i2] },
    Site { model: r##"{"items": [{"decl": ["⟦0⟧", "red"]}]}"##, slots: "p", makes: &[s103_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s104_l0, s104_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".a", "⟦0⟧"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "s", makes: &[s105_l1, s105_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s106_l2, s106_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s107_l3, s107_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s108_l0, s108_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "n", makes: &[s109_l1, s109_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s110_l2, s110_i2] },
    Site { model: r##"{"items": [{"decl": ["⟦0⟧", "red"]}]}"##, slots: "p", makes: &[s111_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s112_l0, s112_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".a", "⟦0⟧"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "s", makes: &[s113_l1, s113_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s114_l2, s114_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s115_l3, s115_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s116_l0, s116_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "n", makes: &[s117_l1, s117_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s118_l2, s118_i2] },
    Site { model: r##"{"items": [{"decl": ["⟦0⟧", "red"]}]}"##, slots: "p", makes: &[s119_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s120_l0, s120_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".a", "⟦0⟧"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "s", makes: &[s121_l1, s121_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s122_l2, s122_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s123_l3, s123_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s124_l0, s124_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "n", makes: &[s125_l1, s125_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s126_l2, s126_i2] },
    Site { model: r##"{"items": [{"decl": ["⟦0⟧", "red"]}]}"##, slots: "p", makes: &[s127_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s128_l0, s128_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".a", "⟦0⟧"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "s", makes: &[s129_l1, s129_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s130_l2, s130_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s131_l3, s131_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s132_l0, s132_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "n", makes: &[s133_l1, s133_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s134_l2, s134_i2] },
    Site { model: r##"{"items": [{"decl": ["⟦0⟧", "red"]}]}"##, slots: "p", makes: &[s135_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s136_l0, s136_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".a", "⟦0⟧"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "s", makes: &[s137_l1, s137_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s138_l2, s138_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s139_l3, s139_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s140_l0, s140_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "n", makes: &[s141_l1, s141_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s142_l2, s142_i2] },
    Site { model: r##"{"items": [{"decl": ["⟦0⟧", "red"]}]}"##, slots: "p", makes: &[s143_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s144_l0, s144_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".a", "⟦0⟧"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "s", makes: &[s145_l1, s145_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s146_l2, s146_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s147_l3, s147_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s148_l0, s148_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "n", makes: &[s149_l1, s149_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s150_l2, s150_i2] },
    Site { model: r##"{"items": [{"decl": ["⟦0⟧", "red"]}]}"##, slots: "p", makes: &[s151_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s152_l0, s152_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".a", "⟦0⟧"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "s", makes: &[s153_l1, s153_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s154_l2, s154_i2] },
    Site { model: r##"{"items": [{"at": {"cond": "@media ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s155_l3, s155_i3] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s156_l0, s156_i0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}]}"##, slots: "n", makes: &[s157_l1, s157_i1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}]}"##, slots: "v", makes: &[s158_l2, s158_i2] },
    Site { model: r##"{"items": [{"decl": ["⟦0⟧", "red"]}]}"##, slots: "p", makes: &[s159_i3] },
    Site { model: r##"{"items": [{"decl": ["content", "\"{\""]}, {"decl": ["--my-var", "\"}{ $ $$ $x\""]}]}"##, slots: "", makes: &[s160_l0, s160_i0] },
    Site { model: r##"{"items": [{"block": {"sels": ["a[href$=\".pdf\"]"], "body": [{"decl": ["color", "⟦0⟧"]}]}}]}"##, slots: "v", makes: &[s161_l1, s161_i1] },
    Site { model: r##"{"items": [{"decl": ["grid-row", "⟦0⟧/⟦1⟧"]}]}"##, slots: "vv", makes: &[s162_l2, s162_i2] },
    Site { model: r##"{"items": [{"decl": ["content", "\"a\"/⟦0⟧"]}]}"##, slots: "v", makes: &[s163_l3, s163_i3] },
    Site { model: r##"{"items": [{"at": {"cond": "@media (min-width: ⟦0⟧)", "body": [{"block": {"sels": [".a"], "body": [{"at": {"cond": "@supports (display: ⟦1⟧)", "body": [{"decl": ["color", "red"]}]}}]}}]}}]}"##, slots: "vv", makes: &[s164_l0, s164_i0] },
    Site { model: r##"{"items": [{"decl": ["margin", "1px ⟦0⟧"]}]}"##, slots: "v", makes: &[s165_l1] },
    Site { model: r##"{"items": [{"decl": ["background", "url(data:image/png;base64,iVBO/+==) ⟦0⟧, url(x;⟦1⟧)"]}]}"##, slots: "vv", makes: &[s166_l2] },
    Site { model: r##"{"items": [{"block": {"sels": [".a & .⟦0⟧", ".b .c"], "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "n", makes: &[s167_l3] },
    Site { model: r##"{"items": [{"at": {"cond": "@media screen and ⟦0⟧", "body": [{"decl": ["color", "red"]}]}}]}"##, slots: "c", makes: &[s168_l0] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}, {"decl": ["margin", "1px ⟦0⟧ 2px"]}]}"##, slots: "v", makes: &[s169_l1] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}, {"decl": ["margin", "1px ⟦0⟧ 2px"]}]}"##, slots: "v", makes: &[s170_l2] },
    Site { model: r##"{"items": [{"decl": ["color", "⟦0⟧"]}, {"decl": ["margin", "1px ⟦0⟧ 2px"]}]}"##, slots: "v", makes: &[s171_l3] },
    Site { model: r##"{"items": [{"decl": ["color", "x(⟦0⟧) ⟦0⟧"]}, {"at": {"cond": "@media print", "body": [{"block": {"sels": [".a"], "body": [{"decl": ["content", "⟦0⟧"]}]}}]}}]}"##, slots: "v", makes: &[s172_l0] },
    Site { model: r##"{"items": [{"decl": ["color", "x(⟦0⟧) ⟦0⟧"]}, {"at": {"cond": "@media print", "body": [{"block": {"sels": [".a"], "body": [{"decl": ["content", "⟦0⟧"]}]}}]}}]}"##, slots: "v", makes: &[s173_l1] },
    Site { model: r##"{"items": [{"decl": ["color", "x(⟦0⟧) ⟦0⟧"]}, {"at": {"cond": "@media print", "body": [{"block": {"sels": [".a"], "body": [{"decl": ["content", "⟦0⟧"]}]}}]}}]}"##, slots: "v", makes: &[s174_l2] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧ > .b", "&.⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}, {"block": {"sels": [".a .⟦0⟧"], "body": [{"decl": ["--my-var", "⟦0⟧"]}]}}]}"##, slots: "n", makes: &[s175_l3] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧ > .b", "&.⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}, {"block": {"sels": [".a .⟦0⟧"], "body": [{"decl": ["--my-var", "⟦0⟧"]}]}}]}"##, slots: "n", makes: &[s176_l0] },
    Site { model: r##"{"items": [{"block": {"sels": [".⟦0⟧ > .b", "&.⟦0⟧:hover"], "body": [{"decl": ["margin", "0 auto"]}]}}, {"block": {"sels": [".a .⟦0⟧"], "body": [{"decl": ["--my-var", "⟦0⟧"]}]}}]}"##, slots: "n", makes: &[s177_l1] },
];
