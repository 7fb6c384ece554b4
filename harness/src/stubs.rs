//! Models of functions of the standard library that are too slow to execute
//! symbolically; `c06::utf8_model` and others compare them with the originals.

use std::str::Utf8Error;

/// `core::str::validations::run_utf8_validation`, octet by octet.
pub fn run_utf8_validation(v: &[u8]) -> Result<(), Utf8Error> {
	let fail = |at: usize, len: Option<u8>| -> Result<(), Utf8Error> {
		// SAFETY: These are the members of `Utf8Error`, in the order and layout
		// that Kani's compiler gives them; natively, this is never called.
		Err(unsafe { std::mem::transmute::<(usize, Option<u8>), Utf8Error>((at, len)) })
	};

	// Octets that the sequence that began at `start` still lacks, and the range
	// of the next one.
	let (mut lacks, mut lo, mut hi, mut start) = (0u8, 0x80, 0xBF, 0);

	let mut i = 0;
	while i < v.len() {
		let c = v[i];
		if lacks == 0 {
			start = i;
			(lacks, lo, hi) = match c {
				0x00..=0x7F => (0, 0x80, 0xBF),
				0xC2..=0xDF => (1, 0x80, 0xBF),
				0xE0 => (2, 0xA0, 0xBF),
				0xED => (2, 0x80, 0x9F),
				0xE1..=0xEF => (2, 0x80, 0xBF),
				0xF0 => (3, 0x90, 0xBF),
				0xF4 => (3, 0x80, 0x8F),
				0xF1..=0xF3 => (3, 0x80, 0xBF),
				_ => return fail(i, Some(1)),
			};
		} else {
			if c < lo || c > hi {
				return fail(start, Some((i - start) as u8));
			}
			(lacks, lo, hi) = (lacks - 1, 0x80, 0xBF);
		}
		i += 1;
	}

	if lacks == 0 { Ok(()) } else { fail(start, None) }
}

/// The same, for octets that are known to be ASCII.
pub fn ascii(_: &[u8]) -> Result<(), Utf8Error> {
	Ok(())
}

/// `core::slice::ascii::is_ascii`, octet by octet.
pub fn is_ascii(v: &[u8]) -> bool {
	let mut i = 0;
	while i < v.len() {
		if v[i] > 0x7F {
			return false;
		}
		i += 1;
	}
	true
}
