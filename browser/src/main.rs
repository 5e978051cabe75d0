#[path = "../../sim/src/alloc.rs"]
mod alloc;
#[path = "../../sim/src/css.rs"]
mod css;
#[path = "../../sim/src/html.rs"]
mod html;
#[path = "../../sim/src/markup.rs"]
mod markup;
#[path = "../../sim/src/rng.rs"]
mod rng;
#[path = "../../sim/src/rt.rs"]
mod rt;
#[path = "../../sim/src/run.rs"]
mod run;
mod scen;
#[path = "../../sim/src/tsan.rs"]
mod tsan;
#[path = "../../sim/src/drive.rs"]
mod drive;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    drive::main(&a);
}
