//! Harnesses over `oct` with modelled locks and atomics; one module per property.
#![allow(irrefutable_let_patterns, static_mut_refs)]
#![allow(clippy::all)]
#![allow(dead_code, unused_imports)]

#[macro_use]
extern crate vstd;

pub use vstd::sym;

#[path = "../../../harness/src/stubs.rs"]
pub mod stubs;
#[cfg(not(kani))]
pub use vstd::Entry;

macro_rules! properties {
	($($m:ident = $f:literal),* $(,)?) => {
		$(#[cfg(any(not(kani), feature = $f))] pub mod $m;)*

		#[cfg(not(kani))]
		pub fn registry() -> impl Iterator<Item = &'static Entry> {
			[$($m::REGISTRY),*].into_iter().flatten()
		}
	};
}

properties! {
	c18 = "c18",
	c21 = "c21",
}
