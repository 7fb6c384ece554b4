//! The standard library with a model of `std::sync`.
//!
//! Kani has neither threads nor poisoning. Here, locks can be poisoned, and
//! other threads are an environment: whenever the program under test gives
//! them the opportunity (before it acquires a lock, after it releases one,
//! before every access of an atomic), they may store arbitrary values. The
//! environment's choices are symbolic, so that the solver decides over all of
//! its interleavings with the program.
#![allow(dead_code, clippy::all)]

pub use std::*;

/// One harness, for native replays.
#[cfg(not(kani))]
pub struct Entry {
	pub name: &'static str,
	pub doc: &'static str,
	pub unwind: (u32, u32),
	pub run: fn(),
}

#[path = "../../../harness/src/sym.rs"]
#[macro_use]
pub mod sym;

pub mod sync;
