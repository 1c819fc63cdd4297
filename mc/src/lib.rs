//! Bounded exhaustive exploration of the real `static-math` code.
//! See /verif/DESIGN.md.
#![allow(clippy::all)]
pub mod engine;
pub mod refm;
pub mod adapt;
pub mod scal;
pub mod fam;
pub use engine::*;
pub mod mats;
pub mod ops;
