//! Exploration engine and reference models. See ../DESIGN.md.
#![allow(clippy::all)]
pub mod alloc;
pub mod ctx;
pub mod scalars;
pub mod words;
pub mod vecs;
pub mod tens;

#[cfg(feature = "hooks")]
pub mod views;
