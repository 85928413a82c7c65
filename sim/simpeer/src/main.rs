#[allow(dead_code)]
#[path = "../../simbase/src/base.rs"]
mod base;
mod peers;
mod rotate;
mod wire;
fn main() {
    base::note_statics();
    std::process::exit(simcore::main(&[peers::CHECK, wire::CHECK]));
}
