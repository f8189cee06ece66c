mod driver;
mod gen;
mod orch;
mod refmodel;
mod runner;
mod script;
mod seams;
mod world;

fn main() {
    seams::init();
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(orch::main(&args[1..]));
}
