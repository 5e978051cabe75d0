//! Properties decided over the manager workload.
use super::world::{self, Mix};
use super::*;

macro_rules! scenario {
    ($name:ident, $id:literal, $runs:expr, $rule:expr, $mix:expr) => {
        pub mod $name {
            use super::*;
            pub const MIX: Mix = $mix;
            fn draw(r: &mut Rng, thorough: bool) -> Value {
                let mut m = MIX;
                if thorough && r.chance(1, 3) {
                    m.ops.1 *= 4;
                }
                serde_json::to_value(world::draw(r, &m)).unwrap()
            }
            fn exec(v: Value) {
                world::exec($id, plan(v));
            }
            pub const SCENARIO: Scenario = Scenario { id: $id, draw, exec, quick_runs: $runs, rule: $rule };
        }
    };
}
const RULE: &str = "a run is 1-5 threads, each driving its own style managers (create scoped/global styles supplied as text, sheet, macro or deserialised sheet; clone, drop, unregister, capture, load; failing operations and faults) under a seeded schedule, compared after every operation with a reference model; non-trivial when several threads ran or a context switch or fault occurred; distinct by the hash of its operations, faults and schedule";
scenario!(c02, "C02", 5000, RULE, Mix { threads: &[1, 1, 2, 3], ops: (4, 24), mgr: 8, writer: 25, drop_mgr: 2, create: 50, bad: 3, brk: 1, clone: 5, drop: 12, unreg: 4, read: 2, post: 1, load: 2, recheck: 5, reseed: 2, bulk: 6, die: 1, panic: 1, conflict: 1, servers: 20 });
scenario!(c03, "C03", 5000, RULE, Mix { threads: &[1, 2, 2, 3, 4, 5], ops: (4, 22), mgr: 8, writer: 40, drop_mgr: 2, create: 60, bad: 0, brk: 0, clone: 2, drop: 6, unreg: 10, read: 6, post: 2, load: 6, recheck: 2, reseed: 8, bulk: 20, die: 1, panic: 0, conflict: 0, servers: 60 });
scenario!(c04, "C04", 5000, RULE, Mix { threads: &[1, 1, 2, 3], ops: (5, 28), mgr: 6, writer: 15, drop_mgr: 6, create: 45, bad: 1, brk: 0, clone: 10, drop: 12, unreg: 25, read: 2, post: 0, load: 3, recheck: 8, reseed: 0, bulk: 8, die: 2, panic: 2, conflict: 1, servers: 15 });
scenario!(c07, "C07", 5000, RULE, Mix { threads: &[1, 2, 2, 3, 4], ops: (4, 24), mgr: 10, writer: 85, drop_mgr: 5, create: 50, bad: 3, brk: 3, clone: 2, drop: 10, unreg: 10, read: 5, post: 8, load: 0, recheck: 3, reseed: 0, bulk: 8, die: 3, panic: 3, conflict: 0, servers: 0 });
scenario!(c11, "C11", 5000, RULE, Mix { threads: &[2, 2, 3, 4, 5], ops: (4, 18), mgr: 12, writer: 50, drop_mgr: 4, create: 50, bad: 5, brk: 5, clone: 2, drop: 6, unreg: 6, read: 5, post: 4, load: 2, recheck: 6, reseed: 0, bulk: 3, die: 6, panic: 5, conflict: 1, servers: 10 });
scenario!(c15, "C15", 5000, RULE, Mix { threads: &[1, 2, 2, 3], ops: (4, 22), mgr: 8, writer: 60, drop_mgr: 2, create: 40, bad: 14, brk: 14, clone: 2, drop: 5, unreg: 4, read: 5, post: 3, load: 10, recheck: 10, reseed: 0, bulk: 4, die: 5, panic: 6, conflict: 10, servers: 30 });
scenario!(c09, "C09", 5000, "a run is 1-2 server processes (with crashes and restarts) rendering 1-6 requests and 1-4 client threads that load the delivered data (duplicated, reordered, in pieces, stale, conflicting) into managers of their own, interleaved with requests for styles, under a seeded schedule; every run has several processes; distinct by the hash of its operations, faults and schedule", Mix { threads: &[1, 1, 2, 3], ops: (4, 20), mgr: 10, writer: 10, drop_mgr: 2, create: 45, bad: 2, brk: 1, clone: 2, drop: 8, unreg: 3, read: 2, post: 0, load: 30, recheck: 8, reseed: 3, bulk: 8, die: 3, panic: 2, conflict: 5, servers: 100 });
