include!("mods.rs");
#[allow(dead_code)]
#[path = "../../simbase/src/base.rs"]
mod base;
mod check;
fn main() {
    std::process::exit(simcore::main(&[check::CHECK]));
}
