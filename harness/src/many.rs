//! Collections of any number of elements, of which only the first ones are
//! looked at.

use crate::sym::{any, assume};
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use std::cell::RefCell;
use std::convert::Infallible;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

/// After how many elements a path ends.
pub const ENOUGH: usize = 3;

/// An element without size that counts how often it is encoded and decoded.
/// The first one checks that it is preceded by exactly the announced length.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Stop;

pub static mut CALLS: usize = 0;
pub static mut ANNOUNCED: usize = 0;

pub fn calls() -> usize {
	unsafe { CALLS }
}

pub fn announce(n: usize) {
	unsafe {
		CALLS = 0;
		ANNOUNCED = n;
	}
}

impl Encode for Stop {
	type Error = Infallible;
	fn encode(&self, o: &mut Output) -> Result<(), Infallible> {
		let n = unsafe { ANNOUNCED };
		let b = o.as_slice();
		check!(b.len() == 2 && b[0] == n as u8 && b[1] == (n >> 8) as u8, "the elements are not preceded by their number");
		unsafe { CALLS += 1 };
		check!(calls() <= n, "more elements are encoded than there are");
		cover!(calls() == 2 && n > 256, "many elements are encoded");
		assume(calls() < ENOUGH);
		Ok(())
	}
}

impl Decode for Stop {
	type Error = Infallible;
	fn decode(i: &mut Input) -> Result<Self, Infallible> {
		check!(i.position() == 2, "the elements are not read after their number");
		unsafe { CALLS += 1 };
		check!(calls() <= unsafe { ANNOUNCED }, "more elements are decoded than were announced");
		cover!(calls() == 2 && unsafe { ANNOUNCED } > 256, "many elements are decoded");
		assume(calls() < ENOUGH);
		Ok(Self)
	}
}

/// Elements of a map or set that are never equal, as far as is looked.
impl Hash for Stop {
	fn hash<H: Hasher>(&self, _: &mut H) {}
}

#[derive(Default)]
pub struct Const;

impl Hasher for Const {
	fn finish(&self) -> u64 {
		0
	}
	fn write(&mut self, _: &[u8]) {}
	fn write_u8(&mut self, _: u8) {}
}

pub type B = BuildHasherDefault<Const>;

/// Encodes `v`, which holds `n` elements.
pub fn encode_many<T: Encode + ?Sized>(v: &T, n: usize) {
	announce(n);
	let mut buf = [0u8; 4];
	let mut o = Output::new(&mut buf);
	let r = v.encode(&mut o);
	let m = o.position();
	check!(r.is_ok(), "elements within the limits are refused");
	std::mem::forget(r);
	check!(calls() == n, "not all elements are encoded");
	check!(m == 2 && buf[0] == n as u8 && buf[1] == 0, "the number of elements is not encoded");
}

/// Decodes `n` elements.
pub fn decode_many<T: Decode>(n: usize, len: impl FnOnce(&T) -> usize) {
	announce(n);
	let raw = [n as u8, (n >> 8) as u8];
	let mut i = Input::new(&raw);
	let r = T::decode(&mut i);
	let m = i.position();
	match r {
		Ok(v) => {
			check!(calls() == n, "not all elements are decoded");
			check!(len(&v) == n, "another number of elements is decoded");
			check!(m == 2, "another number of octets is consumed");
			std::mem::forget(v);
		}
		Err(e) => {
			std::mem::forget(e);
			check!(false, "elements within the limits are rejected");
		}
	}
}

/// Any number that the format can announce.
pub fn any_count() -> usize {
	any::<u16>() as usize
}

/// `n` elements.
pub fn stops(n: usize) -> Vec<Stop> {
	let mut v = Vec::new();
	// SAFETY: The elements have no size, hence nothing is uninitialised.
	unsafe { v.set_len(n) };
	v
}

/// Elements of long collections: more than a plausible preallocation.
pub const LONG: usize = if cfg!(feature = "thorough") { 2060 } else { 1030 };

/// An element that is its own index, and has no octets.
#[derive(Clone, Copy)]
pub struct Nth(pub u16);

impl Decode for Nth {
	type Error = Infallible;
	fn decode(_: &mut Input) -> Result<Self, Infallible> {
		let n = calls() as u16;
		unsafe { CALLS += 1 };
		Ok(Self(n))
	}
}

/// `v` is every element, in order. Natively, this needs no trace.
pub fn nths(v: &[Nth]) {
	check!(v.len() == LONG, "elements are lost or appear");

	#[cfg(kani)]
	{
		let k: usize = any();
		assume(k < LONG);
		check!(v[k].0 as usize == k, "another element is shown");
		cover!(k == LONG - 1, "the last element");
	}

	#[cfg(not(kani))]
	for k in 0..LONG {
		check!(v[k].0 as usize == k, "another element is shown");
	}
}

/// Decodes `LONG` elements.
pub fn decode_long<T: Decode>(prefix: usize, f: impl FnOnce(&T)) {
	announce(LONG);
	let raw = [LONG as u8, (LONG >> 8) as u8];
	let mut i = Input::new(&raw);
	let r = T::decode(&mut i);
	check!(i.position() == prefix, "another number of octets is consumed");
	match r {
		Ok(v) => {
			check!(calls() == LONG, "not all elements are decoded");
			f(&v);
			std::mem::forget(v);
		}
		Err(e) => {
			std::mem::forget(e);
			check!(false, "elements within the limits are rejected");
		}
	}
}
