//! Helpers shared by the harnesses.

use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};

/// Unwraps without formatting the error.
#[inline(always)]
pub fn ok<T, E>(r: Result<T, E>) -> T {
	match r {
		Ok(v) => v,
		Err(_) => panic!("unexpected error"),
	}
}

#[inline(always)]
pub fn is_ok<T, E>(r: &Result<T, E>) -> bool {
	matches!(r, Ok(_))
}

/// Encodes into `buf` and returns the number of octets written.
#[inline(always)]
pub fn enc<T: Encode + ?Sized>(v: &T, buf: &mut [u8]) -> usize {
	let mut o = Output::new(buf);
	let r = v.encode(&mut o);
	let n = o.position();
	check!(is_ok(&r), "encoding failed");
	std::mem::forget(r);
	n
}

/// Decodes from `buf` and returns the value and the number of octets consumed.
#[inline(always)]
pub fn dec<T: Decode>(buf: &[u8]) -> (Result<T, T::Error>, usize) {
	let mut i = Input::new(buf);
	let r = T::decode(&mut i);
	let n = i.position();
	(r, n)
}

/// Equality of the first `n` octets, without a loop.
#[inline(always)]
pub fn eq_n<const N: usize>(a: &[u8; N], b: &[u8; N], n: usize) -> bool {
	macro_rules! unrolled {
		($($i:literal)*) => { true $(& ($i >= N || $i >= n || a[$i % N] == b[$i % N]))* };
	}

	assert!(N <= 48);
	unrolled!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31
		32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47)
}

/// Elementwise equality of slices of at most `MAX` elements.
#[inline(always)]
pub fn eq_sl<T: PartialEq>(a: &[T], b: &[T], max: usize) -> bool {
	if a.len() != b.len() {
		return false;
	}
	let mut same = true;
	let mut i = 0;
	while i < max {
		if i < a.len() && a[i] != b[i] {
			same = false;
		}
		i += 1;
	}
	same
}
