//! The scenarios of the browser simulation.
use crate::rng::Rng;
use serde_json::Value;

pub mod app;
pub mod c16;
pub mod doc;

pub struct Scenario {
    pub id: &'static str,
    pub draw: fn(&mut Rng, bool) -> Value,
    pub exec: fn(Value),
    /// How many runs the quick tier makes.
    pub quick_runs: u64,
    pub rule: &'static str,
}
pub const ALL: &[Scenario] = &[doc::C05, doc::C06, c16::C16, c16::C17,
    #[cfg(feature = "hydrate")]
    c16::C18,
];

pub fn find(id: &str) -> &'static Scenario {
    ALL.iter().find(|s| s.id == id).unwrap_or_else(|| panic!("no scenario {id}"))
}
/// Deserialises a plan; a plan damaged by minimisation ends the run as "invalid".
pub fn plan<T: serde::de::DeserializeOwned>(v: Value) -> T {
    match serde_json::from_value(v) {
        Ok(p) => p,
        Err(e) => crate::run::violate("invalid-plan", e.to_string()),
    }
}
pub fn seed_rng(_x: u64) {
    #[cfg(feature = "random")]
    fastrand::seed(_x);
}
/// Sheets that can be told apart by what they say.
pub fn distinct(v: Vec<crate::css::Model>) -> Vec<crate::css::Model> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|m| seen.insert(m.expect(None))).collect()
}
