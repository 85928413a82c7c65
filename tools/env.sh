# Sourced by the scripts here: the toolchain of the repository, offline, with a target directory of our own.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.94-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
export SIM_VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export CARGO_TARGET_DIR=${SIM_TARGET:-$SIM_VERIF/target}
export SIM_WS=${SIM_WS:-$SIM_VERIF/ws}
export RUSTC_WORKSPACE_WRAPPER=$SIM_VERIF/tools/rustc-wrap.sh
export RUSTFLAGS="--cap-lints allow -Clink-args=-rdynamic"
