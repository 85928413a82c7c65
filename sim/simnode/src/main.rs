#[path = "../../simbase/src/base.rs"]
mod base;
mod cluster;
mod fabric;
mod judge;
mod mallory;
mod smoke;
mod wire;
mod world;
fn main() {
    std::process::exit(simcore::main(&[smoke::NODES, judge::ALL, judge::P01, judge::P02, judge::P03, judge::P05, judge::P06, judge::P22]));
}
