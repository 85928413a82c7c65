//! A small deterministic operating system under the real program: see `core`, `fs` and `interpose`.
pub mod core;
pub mod fs;
pub mod interpose;
pub mod rng;
pub use crate::core::*;
pub use rng::{mix, Rng};
