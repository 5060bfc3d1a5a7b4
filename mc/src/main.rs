mod ast;
mod avroread;
mod checks;
mod drv;
mod unicode32;
mod engine;
mod eval;
mod idlparse;
mod judge;
mod mix;
mod progs;
mod truth;
mod world;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|x| x == "fresh") {
        std::process::exit(checks::c12::fresh_main(&a[2..]));
    }
    std::process::exit(engine::main(checks::ALL));
}
