//! C06: malformed input is rejected exactly, with the offending value.
use crate::groups::prelude::*;
use oct::error::{
	CharDecodeError, CollectionDecodeError, CStringDecodeError, EnumDecodeError, ItemDecodeError, LengthError, NonZeroDecodeError,
	SystemTimeDecodeError, Utf8Error,
};
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::hash::{BuildHasherDefault, Hasher};
use std::mem::forget;

/// The octets at `at`, as a number.
fn le(raw: &[u8; CAP], at: usize, octets: usize) -> u64 {
	let mut v = 0;
	let mut i = 8;
	while i > 0 {
		i -= 1;
		if i < octets {
			v = v << 8 | raw[at + i] as u64;
		}
	}
	v
}

macro_rules! nonzero {
	($($t:ty: $octets:literal),*) => { $({
		let raw: [u8; CAP] = any();
		let null = le(&raw, 0, if $octets > 8 { 8 } else { $octets }) == 0 && ($octets <= 8 || le(&raw, 8, 8) == 0);
		match dec::<NonZero<$t>>(&raw).0 {
			Ok(_) => check!(!null, "zero is accepted"),
			Err(NonZeroDecodeError) => {
				check!(null, "a number other than zero is rejected");
				cover!(true, "rejected");
			}
		}
	})* };
}

/// Octets that announce `n` elements.
fn announce(n: usize) -> [u8; CAP] {
	let mut raw: [u8; CAP] = any();
	raw[0] = n as u8;
	raw[1] = 0;
	raw
}

fn announce_up_to(max: usize) -> ([u8; CAP], usize) {
	let mut raw: [u8; CAP] = any();
	assume(raw[0] as usize <= max);
	raw[1] = 0;
	(raw, raw[0] as usize)
}

/// Index of the first null octet of `n` octets at `at`; `n` if there is none.
fn first_null<const N: usize>(raw: &[u8; CAP], at: usize, n: usize) -> usize {
	let mut r = n;
	let mut i = N;
	while i > 0 {
		i -= 1;
		if i < n && raw[at + i] == 0 {
			r = i;
		}
	}
	r
}

/// A decoded collection of non-zero octets.
fn items<C, L>(r: Result<C, CollectionDecodeError<L, ItemDecodeError<usize, NonZeroDecodeError>>>, n: usize, null: usize, len: impl Fn(&C) -> usize) {
	match r {
		Ok(v) => {
			check!(null == n, "a null element is accepted");
			check!(len(&v) == n, "the collection has the wrong length");
			cover!(true, "accepted");
			forget(v);
		}
		Err(CollectionDecodeError::BadItem(ItemDecodeError { index, error: NonZeroDecodeError })) => {
			check!(null < n, "a collection without null is rejected");
			check!(index == null, "the error reports another index");
			cover!(n < 2 || index > 0, "rejected a later one");
		}
		Err(_) => panic!("another error"),
	}
}

fn string<const N: usize>() {
	let raw = announce(N);
	let b: [u8; N] = std::array::from_fn(|i| raw[2 + i]);
	let valid = utf8_valid_up_to(&b);
	cover!(N == 0 || valid + 1 == N, "ill-formed");
	match dec::<String>(&raw).0 {
		Ok(v) => {
			check!(valid == N, "ill-formed text is accepted");
			check!(v.len() == N, "the text has the wrong length");
			cover!(true, "accepted");
			forget(v);
		}
		Err(CollectionDecodeError::BadItem(Utf8Error { value, index })) => {
			check!(valid < N, "well-formed text is rejected");
			check!(index == valid, "the error reports another index");
			check!(value == b[valid % N.max(1)], "the error reports another octet");
		}
		Err(_) => panic!("another error"),
	}
}

/// `N` octets against a capacity of `C`.
fn sized_str<const N: usize, const C: usize>() {
	let raw = announce(N);
	let b: [u8; N] = std::array::from_fn(|i| raw[2 + i]);
	let valid = utf8_valid_up_to(&b);
	match dec::<SizedStr<C>>(&raw).0 {
		Ok(v) => {
			check!(N <= C, "text beyond the capacity is accepted");
			check!(valid == N, "ill-formed text is accepted");
			check!(v.len() == N, "the text has the wrong length");
		}
		Err(CollectionDecodeError::BadLength(LengthError { capacity, len })) => {
			check!(N > C, "text within the capacity is rejected");
			check!(capacity == C && len == N, "the error reports another length or capacity");
		}
		Err(CollectionDecodeError::BadItem(Utf8Error { value, index })) => {
			check!(valid < N, "well-formed text is rejected");
			check!(index == valid, "the error reports another index");
			check!(value == b[valid % N.max(1)], "the error reports another octet");
		}
	}
	cover!(true, "decoded");
}

fn c_string<const N: usize>() {
	let raw = announce(N);
	let null = first_null::<N>(&raw, 2, N);
	cover!(N == 0 || null + 1 == N, "null");
	match dec::<CString>(&raw).0 {
		Ok(v) => {
			check!(null == N, "text with a null octet is accepted");
			check!(v.as_bytes().len() == N, "the text has the wrong length");
			cover!(true, "accepted");
			forget(v);
		}
		Err(CStringDecodeError { index }) => {
			check!(null < N, "text without null octets is rejected");
			check!(index == null, "the error reports another index");
		}
	}
}

macro_rules! never {
	($($t:ty)*) => { $({
		let raw = <$t as Ty>::raw();
		let (r, _) = dec::<$t>(&raw);
		check!(is_ok(&r), "a valid encoding is rejected");
		forget(r);
	})* };
}

#[derive(Default, Clone)]
pub struct Const;

impl Hasher for Const {
	fn finish(&self) -> u64 {
		0
	}
	fn write(&mut self, _: &[u8]) {}
	fn write_u8(&mut self, _: u8) {}
}

type B = BuildHasherDefault<Const>;

fn utf8_agree<const N: usize>() {
	let b: [u8; N] = any();
	match (std::str::from_utf8(&b).err(), crate::stubs::run_utf8_validation(&b).err()) {
		(None, None) => {}
		(Some(e), Some(m)) => {
			check!(e.valid_up_to() == m.valid_up_to() && e.error_len() == m.error_len(), "the model places the error elsewhere");
			cover!(true, "refused");
		}
		_ => check!(false, "the model and the standard library disagree"),
	}
}

harnesses! {
	/// the model of UTF-8 validation agrees with the standard library up to 3 octets
	@real fn utf8_model(8, 8) {
		utf8_agree::<1>();
		utf8_agree::<2>();
		utf8_agree::<3>();
	}

	/// the model of UTF-8 validation agrees with the standard library on 4 octets
	@real fn utf8_model_4(8, 8) {
		utf8_agree::<4>();
	}

	/// the model of UTF-8 validation agrees with the standard library on 5 octets
	@real fn utf8_model_5(8, 8) {
		utf8_agree::<5>();
	}

	/// the model of `is_ascii` agrees with the standard library up to 17 octets
	@real fn ascii_model(20, 20) {
		let b: [u8; 17] = any();
		macro_rules! agree {
			($($n:literal)*) => { $(
				check!(b[..$n].is_ascii() == crate::stubs::is_ascii(&b[..$n]), "the model and the standard library disagree");
			)* };
		}
		agree!(0 1 7 8 9 16 17);
		cover!(crate::stubs::is_ascii(&b), "accepted");
	}

	/// char
	fn character(6, 6) {
		let raw: [u8; CAP] = any();
		let c = le(&raw, 0, 4) as u32;
		let valid = c <= 0x10FFFF && (c < 0xD800 || c > 0xDFFF);
		match dec::<char>(&raw).0 {
			Ok(v) => {
				check!(valid, "an undefined code point is accepted");
				check!(v as u32 == c, "another character is decoded");
				cover!(c > 0xDFFF, "accepted");
			}
			Err(CharDecodeError { code_point }) => {
				check!(!valid, "a scalar value is rejected");
				check!(code_point == c, "the error reports another code point");
				cover!(c < 0x10000, "rejected a surrogate");
			}
		}
	}

	/// NonZero of every unsigned integer
	fn nonzero_unsigned(18, 18) {
		nonzero!(u8: 1, u16: 2, u32: 4, u64: 8, u128: 16, usize: 2);
	}

	/// NonZero of every signed integer
	fn nonzero_signed(18, 18) {
		nonzero!(i8: 1, i16: 2, i32: 4, i64: 8, i128: 16, isize: 2);
	}

	/// numbers, bool, unit, Option, Wrapping and atomics are never rejected
	fn never_rejected(18, 18) {
		never!(() u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 bool);
		never!((u8, bool) Option<u8> Option<bool> Wrapping<u16> Saturating<i32> AtomicU32 AtomicBool);
	}

	/// ranges, addresses and durations are never rejected
	fn never_rejected_composite(18, 18) {
		never!(Range<u8> RangeInclusive<u16> RangeFrom<u8> RangeTo<u8> RangeToInclusive<u8>);
		never!(Ipv4Addr Ipv6Addr SocketAddrV4 SocketAddrV6 Duration);
	}

	/// every whole-second system time is accepted
	fn system_time(6, 6) {
		let raw: [u8; CAP] = any();
		let secs = le(&raw, 0, 8) as i64;
		match dec::<SystemTime>(&raw).0 {
			Ok(v) => {
				check!(crate::wire::system_time(secs) == Some(v), "another time is decoded");
				cover!(secs < 0, "before the epoch");
			}
			Err(SystemTimeDecodeError { timestamp }) => {
				check!(crate::wire::system_time(secs).is_none(), "a representable time is rejected");
				check!(timestamp == secs, "the error reports another timestamp");
			}
		}
	}

	/// Option<char>, bool, Option: any non-zero octet counts as true
	fn truth(6, 6) {
		let raw: [u8; CAP] = any();
		match dec::<bool>(&raw).0 {
			Ok(v) => check!(v == (raw[0] != 0), "another truth is decoded"),
			Err(_) => panic!("a truth is rejected"),
		}

		let c = le(&raw, 1, 4) as u32;
		let valid = c <= 0x10FFFF && (c < 0xD800 || c > 0xDFFF);
		match dec::<Option<char>>(&raw).0 {
			Ok(None) => check!(raw[0] == 0, "none is decoded instead of some"),
			Ok(Some(v)) => check!(raw[0] != 0 && valid && v as u32 == c, "another option is decoded"),
			Err(CharDecodeError { code_point }) => {
				check!(raw[0] != 0 && !valid, "a valid option is rejected");
				check!(code_point == c, "the error reports another code point");
				cover!(raw[0] == 2, "an unusual truth");
			}
		}
	}

	/// Result<NonZero<u8>, NonZero<u16>>
	fn result(6, 6) {
		let raw: [u8; CAP] = any();
		match dec::<Result<NonZero<u8>, NonZero<u16>>>(&raw).0 {
			Ok(Ok(v)) => check!(raw[0] == 0 && v.get() == raw[1], "another result is decoded"),
			Ok(Err(v)) => check!(raw[0] != 0 && v.get() as u64 == le(&raw, 1, 2), "another result is decoded"),
			Err(EnumDecodeError::BadField(NonZeroDecodeError)) => {
				check!(le(&raw, 1, if raw[0] == 0 { 1 } else { 2 }) == 0, "a valid result is rejected");
				cover!(raw[0] == 7, "an unusual truth");
			}
			Err(_) => panic!("another error"),
		}
	}

	/// Bound<NonZero<u8>>
	fn bound(6, 6) {
		let raw: [u8; CAP] = any();
		match dec::<Bound<NonZero<u8>>>(&raw).0 {
			Ok(Bound::Included(v)) => check!(raw[0] == 0 && v.get() == raw[1], "another bound is decoded"),
			Ok(Bound::Excluded(v)) => check!(raw[0] == 1 && v.get() == raw[1], "another bound is decoded"),
			Ok(Bound::Unbounded) => check!(raw[0] == 2, "another bound is decoded"),
			Err(EnumDecodeError::UnassignedDiscriminant { value }) => {
				check!(raw[0] > 2, "an assigned tag is rejected");
				check!(value == raw[0], "the error reports another tag");
				cover!(value == 255, "the last tag");
			}
			Err(EnumDecodeError::BadField(NonZeroDecodeError)) => {
				check!(raw[0] < 2 && raw[1] == 0, "a valid bound is rejected");
				cover!(true, "a bad field");
			}
			Err(_) => panic!("another error"),
		}
	}

	/// IpAddr
	fn ip(6, 6) {
		let raw: [u8; CAP] = any();
		match dec::<IpAddr>(&raw).0 {
			Ok(IpAddr::V4(_)) => check!(raw[0] == 4, "another version is decoded"),
			Ok(IpAddr::V6(_)) => check!(raw[0] == 6, "another version is decoded"),
			Err(EnumDecodeError::UnassignedDiscriminant { value }) => {
				check!(raw[0] != 4 && raw[0] != 6, "an assigned tag is rejected");
				check!(value == raw[0], "the error reports another tag");
				cover!(value == 5, "rejected");
			}
			Err(_) => panic!("another error"),
		}
	}

	/// SocketAddr
	fn socket(6, 6) {
		let raw: [u8; CAP] = any();
		match dec::<SocketAddr>(&raw).0 {
			Ok(SocketAddr::V4(_)) => check!(raw[0] == 4, "another version is decoded"),
			Ok(SocketAddr::V6(_)) => check!(raw[0] == 6, "another version is decoded"),
			Err(EnumDecodeError::UnassignedDiscriminant { value }) => {
				check!(raw[0] != 4 && raw[0] != 6, "an assigned tag is rejected");
				check!(value == raw[0], "the error reports another tag");
				cover!(value == 5, "rejected");
			}
			Err(_) => panic!("another error"),
		}
	}

	/// tuples, ranges and wrappers pass on the error of their first bad member
	fn members(6, 6) {
		let raw: [u8; CAP] = any();
		let bad = |at: usize| {
			let c = le(&raw, at, 4) as u32;
			c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF)
		};
		let first = if bad(0) { Some(0) } else if bad(4) { Some(4) } else { None };
		match dec::<(char, char)>(&raw).0 {
			Ok((a, b)) => check!(first.is_none() && a as u64 == le(&raw, 0, 4) && b as u64 == le(&raw, 4, 4), "another value is decoded"),
			Err(CharDecodeError { code_point }) => match first {
				Some(at) => check!(code_point as u64 == le(&raw, at, 4), "the error reports another code point"),
				None => panic!("valid members are rejected"),
			},
		}
		match dec::<Range<char>>(&raw).0 {
			Ok(v) => check!(first.is_none() && v.start as u64 == le(&raw, 0, 4) && v.end as u64 == le(&raw, 4, 4), "another value is decoded"),
			Err(CharDecodeError { code_point }) => match first {
				Some(at) => check!(code_point as u64 == le(&raw, at, 4), "the error reports another code point"),
				None => panic!("valid members are rejected"),
			},
		}
		match dec::<Box<char>>(&raw).0 {
			Ok(v) => check!(!bad(0) && *v as u64 == le(&raw, 0, 4), "another value is decoded"),
			Err(CharDecodeError { code_point }) => check!(bad(0) && code_point as u64 == le(&raw, 0, 4), "the error is wrong"),
		}
		cover!(first == Some(4), "the second member");
	}

	/// [NonZero<u8>; 3]
	fn array(6, 6) {
		let raw: [u8; CAP] = any();
		items(dec::<[NonZero<u8>; 3]>(&raw).0, 3, first_null::<3>(&raw, 0, 3), |_| 3);
	}

	/// Vec<NonZero<u8>> of up to 3
	fn vec(6, 6) {
		let (raw, n) = announce_up_to(3);
		items(dec::<Vec<NonZero<u8>>>(&raw).0, n, first_null::<3>(&raw, 2, n), Vec::len);
	}

	/// LinkedList<NonZero<u8>> of up to 3
	fn list(6, 6) {
		let (raw, n) = announce_up_to(3);
		items(dec::<LinkedList<NonZero<u8>>>(&raw).0, n, first_null::<3>(&raw, 2, n), LinkedList::len);
	}

	/// HashSet<NonZero<u8>> of 1
	fn set(5, 5) {
		let raw = announce(1);
		items(dec::<HashSet<NonZero<u8>, B>>(&raw).0, 1, first_null::<1>(&raw, 2, 1), HashSet::len);
	}

	/// HashMap<NonZero<u8>, NonZero<u8>> of 1
	fn map(5, 5) {
		let raw = announce(1);
		let null = if raw[2] == 0 || raw[3] == 0 { 0 } else { 1 };
		items(dec::<HashMap<NonZero<u8>, NonZero<u8>, B>>(&raw).0, 1, null, HashMap::len);
	}

	/// SizedSlice<NonZero<u8>, 3>, any announced length
	fn sized_slice(6, 6) {
		let raw: [u8; CAP] = any();
		let n = le(&raw, 0, 2) as usize;
		match dec::<SizedSlice<NonZero<u8>, 3>>(&raw).0 {
			Err(CollectionDecodeError::BadLength(LengthError { capacity, len })) => {
				check!(n > 3, "a length within the capacity is rejected");
				check!(capacity == 3 && len == n, "the error reports another length or capacity");
				cover!(n == 4, "just too long");
			}
			r => {
				check!(n <= 3, "a length beyond the capacity is accepted");
				items(r, n, first_null::<3>(&raw, 2, n), |v| v.len());
			}
		}
	}

	/// nested collections report the inner error
	fn nested(6, 6) {
		let mut raw: [u8; CAP] = any();
		raw[0] = 1;
		raw[1] = 0;
		let inner = le(&raw, 3, 2) as usize;
		match dec::<[SizedSlice<NonZero<u8>, 1>; 2]>(&raw).0 {
			Ok(_) => check!(raw[2] != 0 && inner <= 1 && (inner == 0 || raw[5] != 0), "invalid elements are accepted"),
			Err(CollectionDecodeError::BadItem(ItemDecodeError { index, error: CollectionDecodeError::BadLength(LengthError { capacity, len }) })) => {
				check!(raw[2] != 0 && index == 1 && inner > 1 && capacity == 1 && len == inner, "the error is wrong");
			}
			Err(CollectionDecodeError::BadItem(ItemDecodeError { index, error: CollectionDecodeError::BadItem(ItemDecodeError { index: at, .. }) })) => {
				check!(at == 0, "the error reports another inner index");
				check!(if index == 0 { raw[2] == 0 } else { index == 1 && raw[2] != 0 && inner == 1 && raw[5] == 0 }, "the error is wrong");
				cover!(index == 1, "the second element");
			}
			Err(_) => panic!("another error"),
		}
	}

	/// String of 0 and 1 octets
	fn string_01(6, 6) {
		string::<0>();
		string::<1>();
	}

	/// String of 2 octets
	fn string_2(6, 6) {
		string::<2>();
	}

	/// String of 3 octets
	fn string_3(6, 6) {
		string::<3>();
	}

	/// String of 4 octets
	fn string_4(6, 6) {
		string::<4>();
	}

	/// String of 5 octets
	fn string_5(7, 7) {
		string::<5>();
	}

	/// String of 9 octets
	fn string_9(12, 12) {
		string::<9>();
	}

	/// String of 18 octets
	fn string_18(22, 22) {
		string::<18>();
	}

	/// CString of 9 octets
	fn c_string_9(12, 12) {
		c_string::<9>();
	}

	/// CString of 18 octets
	fn c_string_18(22, 22) {
		c_string::<18>();
	}

	/// CString of 0 and 1 octets
	fn c_string_01(8, 8) {
		c_string::<0>();
		c_string::<1>();
	}

	/// CString of 2 octets
	fn c_string_2(8, 8) {
		c_string::<2>();
	}

	/// CString of 3 octets
	fn c_string_3(8, 8) {
		c_string::<3>();
	}

	/// SizedStr of 0 to 3 octets, fewer than the capacity
	fn sized_str_within(6, 6) {
		sized_str::<0, 0>();
		sized_str::<2, 3>();
		sized_str::<3, 3>();
	}

	/// SizedStr of 4 octets, capacity 4
	fn sized_str_full(6, 6) {
		sized_str::<4, 4>();
	}

	/// SizedStr of more octets than the capacity
	fn sized_str_beyond(6, 6) {
		sized_str::<1, 0>();
		sized_str::<3, 2>();
		sized_str::<4, 3>();
	}
}
