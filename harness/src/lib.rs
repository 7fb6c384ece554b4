//! Harnesses over the public API of `oct`; one module per property.
#![allow(irrefutable_let_patterns)]
#![allow(clippy::all)]
#![allow(dead_code, unused_imports)]

/// One harness, for native replays.
#[cfg(not(kani))]
pub struct Entry {
	pub name: &'static str,
	pub doc: &'static str,
	pub unwind: (u32, u32),
	pub run: fn(),
}

#[macro_use]
pub mod sym;
#[macro_use]
pub mod util;
pub mod stubs;
pub mod wire;
pub mod utf8;
pub mod coll;
pub mod many;
#[macro_use]
pub mod groups;
pub mod derived;

macro_rules! properties {
	($($m:ident = $f:literal),* $(,)?) => {
		$(#[cfg(any(not(kani), feature = $f))] pub mod $m;)*

		#[cfg(not(kani))]
		pub fn registry() -> impl Iterator<Item = &'static Entry> {
			[$($m::REGISTRY),*].into_iter().flatten()
		}
	};
}

properties! {
	c01 = "c01",
	c02 = "c02",
	c03 = "c03",
	c04 = "c04",
	c05 = "c05",
	c06 = "c06",
	c07 = "c07",
	c08 = "c08",
	c09 = "c09",
	c10 = "c10",
	c11 = "c11",
	c12 = "c12",
	c13 = "c13",
	c14 = "c14",
	c15 = "c15",
	c16 = "c16",
	c17 = "c17",
	c18 = "c18",
	c19 = "c19",
	c22 = "c22",
}
