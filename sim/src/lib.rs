//! Deterministic simulation of a hashing service on top of the `highway` crate.
#![allow(clippy::too_many_arguments)]

pub mod ctl;
pub mod exec;
pub mod mem;
pub mod model;
pub mod plan;
pub mod rng;
#[cfg(all(unix, not(miri)))]
pub mod sys;
#[cfg(all(unix, not(miri), any(target_arch = "x86_64", feature = "watch")))]
pub mod tf;
pub mod types;
mod vectors;
pub mod world;
#[cfg(target_family = "wasm")]
pub mod wasmapi;
