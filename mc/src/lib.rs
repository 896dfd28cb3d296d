//! Explicit-state exploration of the sized-chunks containers: engine, tracked elements, state spaces, models.
pub mod elem;
pub mod harness;
pub mod seq;
pub mod sparse;
pub mod functional;
pub mod digest;
// the modules below need the whole of the crate; `digest` is built in every configuration of it
#[cfg(feature = "full")]
pub mod geometry;
#[cfg(feature = "full")]
pub mod bytes;
#[cfg(feature = "full")]
pub mod convert;
#[cfg(feature = "full")]
pub mod order;
#[cfg(feature = "full")]
pub mod clones;
#[cfg(feature = "full")]
pub mod eqs;
#[cfg(feature = "full")]
pub mod slices;
#[cfg(feature = "full")]
pub mod ownership;
#[cfg(feature = "full")]
pub mod refusal;
#[cfg(feature = "full")]
pub mod fault;
#[cfg(feature = "full")]
pub mod liar;
#[cfg(feature = "full")]
pub mod moves;
#[cfg(feature = "full")]
pub mod iters;
#[cfg(feature = "full")]
pub mod pools;
#[cfg(feature = "full")]
pub mod arb;
#[cfg(feature = "full")]
pub mod cost;
#[cfg(feature = "full")]
pub mod heap;
#[cfg(feature = "full")]
pub mod ub;
#[cfg(feature = "full")]
pub mod threads;
#[cfg(feature = "full")]
pub mod targets;
