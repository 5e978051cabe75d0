//! Sheets that macros made at compile time, with the meaning their author gave them. Only such
//! whose syntax tree is the same however they are written (the parser and the macros split at-rule
//! conditions into fragments differently, which makes different sheets).
use crate::css::{Inner, Item, Model};
use stylist::{css, StyleSource};

fn d(k: &str, v: &str) -> Item {
    Item::Decl(k.into(), v.into())
}
fn b(sels: &[&str], body: Vec<Inner>) -> Item {
    Item::Block { sels: sels.iter().map(|s| s.to_string()).collect(), body }
}
fn i(k: &str, v: &str) -> Inner {
    Inner::Decl(k.into(), v.into())
}
pub const N: usize = 5;
pub fn model(k: usize) -> Model {
    let items = match k % N {
        0 => vec![d("color", "red")],
        1 => vec![d("color", "red"), d("background-color", "blue")],
        2 => vec![b(&[".a", ".b"], vec![i("width", "10px")]), d("color", "red")],
        3 => vec![d("content", "\"</style>\""), d("content", "\"a  b\"")],
        _ => vec![d("content", "\"a b\"")],
    };
    Model { items, noise: 0 }
}
/// The same sheets, made by the inline and the literal form of the macro.
pub fn source(k: usize, literal: bool) -> StyleSource {
    match (k % N, literal) {
        (0, true) => css!("color: red;"),
        (0, false) => css!(color: red;),
        (1, true) => css!("color: red; background-color: blue;"),
        (1, false) => css!(color: red; background-color: blue;),
        (2, true) => css!(".a, .b { width: 10px; } color: red;"),
        (2, false) => css!(.a, .b { width: 10px; } color: red;),
        (3, true) => css!(r#"content: "</style>"; content: "a  b";"#),
        (3, false) => css!(content: "</style>"; content: "a  b";),
        (_, true) => css!(r#"content: "a b";"#),
        (_, false) => css!(content: "a b";),
    }
}
