#![allow(clippy::all)]
pub mod big;
pub mod engine;
pub mod fam;
#[cfg(feature = "inl")]
pub mod inl;
pub mod keys;
pub mod ledger;
pub mod mem;
pub mod tok;
pub mod ut;
pub use big::*;
pub use engine::*;
pub use fam::*;
pub use keys::*;
pub use ut::*;
pub mod gp;
