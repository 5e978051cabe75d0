//! The scenarios: one module per property. `draw` makes a plan (workload + faults + schedule
//! parameters) from a PRNG; `exec` runs it against the real code, checking as it goes.
use crate::rng::Rng;
use serde_json::Value;

pub mod c01;
pub mod c08;
pub mod c10;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod world;
pub mod worlds;

pub struct Scenario {
    pub id: &'static str,
    pub draw: fn(&mut Rng, bool) -> Value,
    pub exec: fn(Value),
    /// How many runs the quick tier makes.
    pub quick_runs: u64,
    pub rule: &'static str,
}
pub const ALL: &[Scenario] = &[
    c01::SCENARIO,
    worlds::c02::SCENARIO,
    worlds::c03::SCENARIO,
    worlds::c04::SCENARIO,
    worlds::c07::SCENARIO,
    c08::SCENARIO,
    worlds::c09::SCENARIO,
    c10::SCENARIO,
    worlds::c11::SCENARIO,
    c12::SCENARIO,
    c13::SCENARIO,
    c14::SCENARIO,
    worlds::c15::SCENARIO,
];

pub fn find(id: &str) -> &'static Scenario {
    ALL.iter().find(|s| s.id == id).unwrap_or_else(|| panic!("no scenario {id}"))
}
/// Deserialises a plan; a plan damaged by minimisation ends the run as "invalid".
pub fn plan<T: serde::de::DeserializeOwned>(v: Value) -> T {
    match serde_json::from_value(v) {
        Ok(p) => p,
        Err(e) => crate::run::violate("invalid-plan", e.to_string()),
    }
}
