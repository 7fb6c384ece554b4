//! C22: the message of an error contains the details that it records.
//!
//! Details are symbolic numbers of one digit; a message may write them in any
//! base and with leading zeros.
use crate::groups::prelude::*;
use oct::error::*;
use std::num::NonZero;
use std::fmt::{self, Display, Write};

type D = GenericDecodeError;
type E = GenericEncodeError;

/// A sink that collects the numbers of a message.
struct Numbers {
	seen: u16,
	cur: u8,
	state: u8,
	len: usize,
}

const OUTSIDE: u8 = 0;
const NUMBER: u8 = 1;
const WORD: u8 = 2;
const LONG: u8 = 15;

impl Numbers {
	fn put(&mut self, c: u8) {
		let digit = c.wrapping_sub(b'0') < 10;
		let letter = (c | 32).wrapping_sub(b'a') < 26;
		match self.state {
			OUTSIDE => {
				if digit {
					self.state = NUMBER;
					self.cur = c - b'0';
				} else if letter {
					self.state = WORD;
				}
			}
			NUMBER => {
				if digit {
					self.cur = if self.cur == 0 { c - b'0' } else { LONG };
				} else if c != b'x' || self.cur != 0 {
					self.end();
					self.state = if letter { WORD } else { OUTSIDE };
				}
			}
			_ => {
				if !letter && !digit {
					self.state = OUTSIDE;
				}
			}
		}
	}

	fn end(&mut self) {
		if self.state == NUMBER {
			self.seen |= 1 << self.cur;
		}
		self.state = OUTSIDE;
	}
}

impl Write for Numbers {
	fn write_str(&mut self, s: &str) -> fmt::Result {
		let b = s.as_bytes();
		self.len += b.len();
		let mut i = 0;
		while i < b.len() {
			self.put(b[i]);
			i += 1;
		}
		Ok(())
	}
}

/// A number of one digit.
fn digit() -> u8 {
	let v: u8 = any();
	assume(v < 10);
	v
}

/// The message of `e` contains every number of `want`.
fn says(e: &impl Display, want: &[u8]) {
	let mut n = Numbers { seen: 0, cur: 0, state: OUTSIDE, len: 0 };
	let done = write!(n, "{}", e).is_ok();
	n.end();
	check!(done, "the message cannot be written");
	check!(n.len > 0, "the message is empty");
	for v in want {
		check!(n.seen >> *v & 1 != 0, "the message lacks a recorded detail");
	}
}

fn length(a: u8, b: u8) -> LengthError { LengthError { capacity: a as usize, len: b as usize } }

fn utf8(a: u8, b: u8) -> Utf8Error { Utf8Error { value: a, index: b as usize } }

macro_rules! unassigned {
	($t:ty, $f:expr) => {{
		let a = digit();
		assume(a != 0);
		says(&EnumDecodeError::<NonZero<$t>, CharDecodeError>::UnassignedDiscriminant { value: $f(a as $t) }, &[a]);
	}};
}

harnesses! {
	/// lengths
	fn length_error(70, 70) { let (a, b) = (digit(), digit()); says(&length(a, b), &[a, b]); cover!(a == 9 && b == 0, "far"); }

	/// UTF-8
	fn utf8_error(70, 70) { let (a, b) = (digit(), digit()); says(&utf8(a, b), &[a, b]); cover!(a == 9 && b == 0, "far"); }

	/// UTF-16
	fn utf16_error(70, 70) {
		let (a, b) = (digit(), digit());
		says(&Utf16Error { value: a as u16, index: b as usize }, &[a, b]);
	}

	/// characters
	fn char_error(70, 70) { let a = digit(); says(&CharDecodeError { code_point: a as u32 }, &[a]); }

	/// C strings
	fn c_string(70, 70) { let a = digit(); says(&CStringDecodeError { index: a as usize }, &[a]); }

	/// input streams
	fn input(80, 80) {
		let (a, b, c) = (digit(), digit(), digit());
		says(&InputError { capacity: a as usize, position: b as usize, count: c as usize }, &[a, b, c]);
	}

	/// output streams
	fn output(80, 80) {
		let (a, b, c) = (digit(), digit(), digit());
		says(&OutputError { capacity: a as usize, position: b as usize, count: c as usize }, &[a, b, c]);
	}

	/// usize
	fn usize_(80, 80) { let a = digit(); says(&UsizeEncodeError(a as usize), &[a]); }

	/// isize
	fn isize_(80, 80) { let a = digit(); says(&IsizeEncodeError(a as isize), &[a]); }

	/// negative isize
	fn isize_negative(80, 80) { let a = digit(); says(&IsizeEncodeError(-(a as isize)), &[a]); }

	/// times
	fn time(80, 80) { let a = digit(); says(&SystemTimeDecodeError { timestamp: a as i64 }, &[a]); }

	/// non-zero numbers
	fn non_zero(80, 80) { says(&NonZeroDecodeError, &[]); }

	/// borrows
	fn borrow(80, 80) {
		let c = RefCell::new(0u8);
		let guard = c.borrow_mut();
		match c.try_borrow() {
			Ok(_) => check!(false, "a cell is borrowed twice"),
			Err(e) => says(&RefCellEncodeError::<UsizeEncodeError>::BadBorrow(e), &[]),
		}
		drop(guard);
	}

	/// values of cells
	fn cell_value(80, 80) { let a = digit(); says(&RefCellEncodeError::BadValue(UsizeEncodeError(a as usize)), &[a]); }

	/// decoded items
	fn decoded_item(70, 70) {
		let (a, b, c) = (digit(), digit(), digit());
		says(&ItemDecodeError { index: a as usize, error: utf8(b, c) }, &[a, b, c]);
	}

	/// encoded items
	fn encoded_item(80, 80) {
		let (a, b) = (digit(), digit());
		says(&ItemEncodeError { index: a as usize, error: UsizeEncodeError(b as usize) }, &[a, b]);
	}

	/// lengths of decoded collections
	fn decoded_length(70, 70) {
		let (a, b) = (digit(), digit());
		says(&CollectionDecodeError::<_, CharDecodeError>::BadLength(length(a, b)), &[a, b]);
	}

	/// items of decoded collections
	fn decoded_items(70, 70) {
		let (a, b) = (digit(), digit());
		says(&CollectionDecodeError::<LengthError, _>::BadItem(ItemDecodeError { index: a as usize, error: CStringDecodeError { index: b as usize } }), &[a, b]);
	}

	/// lengths of encoded collections
	fn encoded_length(80, 80) {
		let a = digit();
		says(&CollectionEncodeError::<_, CharDecodeError>::BadLength(UsizeEncodeError(a as usize)), &[a]);
	}

	/// items of encoded collections
	fn encoded_items(80, 80) {
		let (a, b) = (digit(), digit());
		says(&CollectionEncodeError::<LengthError, _>::BadItem(ItemEncodeError { index: a as usize, error: IsizeEncodeError(b as isize) }), &[a, b]);
	}

	/// unassigned narrow discriminants
	fn unassigned_8(80, 80) { unassigned!(u8, |v| NonZero::new(v).unwrap()); }

	/// unassigned signed discriminants
	fn unassigned_16(80, 80) { unassigned!(i16, |v| NonZero::new(v).unwrap()); }

	/// unassigned default discriminants
	fn unassigned_size(80, 80) { unassigned!(isize, |v| NonZero::new(v).unwrap()); }

	/// fields of decoded enums
	fn decoded_field(70, 70) {
		let a = digit();
		says(&EnumDecodeError::<NonZero<u8>, _>::BadField(CharDecodeError { code_point: a as u32 }), &[a]);
	}

	/// fields of encoded enums
	fn encoded_field(80, 80) {
		let a = digit();
		says(&EnumEncodeError::<isize, _>::BadField(UsizeEncodeError(a as usize)), &[a]);
	}

	/// discriminants of encoded enums
	fn encoded_discriminant(80, 80) {
		let a = digit();
		says(&EnumEncodeError::<usize, IsizeEncodeError>::BadDiscriminant(UsizeEncodeError(a as usize)), &[a]);
	}

	/// generic: strings
	fn generic_string(70, 70) { let (a, b) = (digit(), digit()); says(&D::BadString(utf8(a, b)), &[a, b]); }

	/// generic: C strings
	fn generic_c_string(70, 70) { let a = digit(); says(&D::NullString(CStringDecodeError { index: a as usize }), &[a]); }

	/// generic: lengths
	fn generic_length(70, 70) { let (a, b) = (digit(), digit()); says(&D::SmallBuffer(length(a, b)), &[a, b]); }

	/// generic: discriminants
	fn generic_discriminant(130, 130) { let a = digit(); says(&D::UnassignedDiscriminant { value: a as u128 }, &[a]); }

	/// generic: times
	fn generic_time(80, 80) { let a = digit(); says(&D::NarrowSystemTime(SystemTimeDecodeError { timestamp: a as i64 }), &[a]); }

	/// generic: numbers
	fn generic_numbers(80, 80) {
		says(&D::NullInteger(NonZeroDecodeError), &[]);
		let a = digit();
		says(&E::LargeUsize(UsizeEncodeError(a as usize)), &[a]);
	}

	/// generic: signed numbers
	fn generic_signed(80, 80) { let a = digit(); says(&E::LargeIsize(IsizeEncodeError(a as isize)), &[a]); }

	/// strings that are not UTF-8
	fn string_8(70, 70) { let (a, b) = (digit(), digit()); says(&StringError::BadUtf8(utf8(a, b)), &[a, b]); }

	/// strings that are not UTF-16
	fn string_16(70, 70) {
		let (a, b) = (digit(), digit());
		says(&StringError::BadUtf16(Utf16Error { value: a as u16, index: b as usize }), &[a, b]);
	}

	/// strings that are too long
	fn string_long(70, 70) { let (a, b) = (digit(), digit()); says(&StringError::SmallBuffer(length(a, b)), &[a, b]); }
}
