mod alloc;
mod corpus;
mod css;
mod html;
mod markup;
mod rng;
mod rt;
mod run;
mod scen;
mod tsan;
mod drive;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    drive::main(&a);
}
