//! C10: derived implementations follow the declaration.
use crate::groups::prelude::*;
use oct::decode::Decode;
use oct::encode::{Encode, SizedEncode};
use oct::error::{EnumDecodeError, EnumEncodeError, GenericDecodeError, GenericEncodeError, IsizeEncodeError, LengthError, UsizeEncodeError};
use std::mem::forget;

/// Encoding follows the declaration, and decoding inverts it.
fn follows<T: Ty + Encode + Decode>() {
	let v = T::arb();
	let mut buf = [0u8; CAP];
	let n = enc(&v, &mut buf);

	let mut w = W::new(&buf);
	v.wire(&mut w);
	check!(n == w.n, "the encoding has the wrong length");
	check!(w.same, "the encoding has wrong octets");

	let (r, m) = dec::<T>(&buf);
	check!(is_ok(&r), "decoding the encoding of a value fails");
	check!(m == n, "decoding does not consume exactly the encoding");
	check!(ok(r).same(&v), "the decoded value differs");
	cover!(true, "followed");
}

/// Exactly the assigned discriminants are accepted. No field of `T` fails.
fn discriminates<T: Tags + Decode<Error = EnumDecodeError<T::D, GenericDecodeError>>>() {
	let raw = T::raw();
	let tag = T::tag(&raw);
	let (r, n) = dec::<T>(&raw);
	match r {
		Ok(v) => {
			check!(T::assigned(tag), "an unassigned discriminant is accepted");
			let mut w = W::lenient(&raw);
			v.wire(&mut w);
			check!(w.same && w.n == n, "another variant or field is decoded");
		}
		Err(EnumDecodeError::UnassignedDiscriminant { value }) => {
			check!(!T::assigned(tag), "an assigned discriminant is rejected");
			check!(value == tag, "the error reports another discriminant");
			cover!(true, "rejected");
		}
		Err(_) => panic!("another error"),
	}
}

#[derive(Encode, SizedEncode)]
struct Borrowed<'a, 'b: 'a> {
	y: &'b u16,
	x: &'a u8,
}

/// Discriminants that do not fit the format.
#[derive(Encode, Decode, SizedEncode)]
enum TooFar {
	A = 32_767,
	B,
	C = 70_000,
}

#[derive(Encode, Decode, SizedEncode)]
#[repr(usize)]
enum TooFarUnsigned {
	A = 65_535,
	B(u8),
}

#[derive(Encode, Decode, SizedEncode)]
struct Fallible {
	a: NonZero<u8>,
	s: SizedSlice<u8, 1>,
	k: Kinds,
	n: NonZero<u8>,
}

#[derive(Encode, Decode)]
#[repr(u8)]
enum FallibleVariants {
	A(NonZero<u8>),
	B { s: SizedSlice<u8, 1>, k: Inner },
}

#[derive(Encode, Decode, SizedEncode)]
#[repr(i8)]
enum Inner {
	X = 1,
	Y,
}

#[derive(Encode, SizedEncode)]
struct Numbers {
	a: usize,
	b: isize,
	c: usize,
}

#[derive(Encode, SizedEncode)]
#[repr(u8)]
enum NumberVariants {
	A(u8, usize),
	B { b: isize, a: usize },
}

fn le16(raw: &[u8; CAP], at: usize) -> usize {
	raw[at] as usize | (raw[at + 1] as usize) << 8
}

harnesses! {
	/// unit, empty and one-field structures
	fn small_structs(6, 6) {
		follows::<Unit>();
		follows::<Empty>();
		follows::<Braces>();
		follows::<One>();
		check!(Unit::MAX_ENCODED_SIZE == 0 && Empty::MAX_ENCODED_SIZE == 0 && Braces::MAX_ENCODED_SIZE == 0, "an empty structure has a size");
		check!(One::MAX_ENCODED_SIZE == 2, "the maximum size is not the sum of the fields");
	}

	/// tuple structure of three fields
	fn tuple_struct(6, 6) {
		follows::<Three>();
		check!(Three::MAX_ENCODED_SIZE == 7, "the maximum size is not the sum of the fields");
	}

	/// named structure of six fields
	fn named_struct(6, 6) {
		follows::<Named>();
		check!(Named::MAX_ENCODED_SIZE == 15, "the maximum size is not the sum of the fields");
	}

	/// structure of composite fields
	fn composite_struct(6, 6) {
		follows::<Composite>();
		check!(Composite::MAX_ENCODED_SIZE == 3 + 3 + 4 + 3, "the maximum size is not the sum of the fields");
	}

	/// generic structures, by type and constant, with and without a where clause
	fn generic_struct(6, 6) {
		follows::<Generic<u8, u32>>();
		follows::<ConstParam<3, u16>>();
		check!(Generic::<u8, u32>::MAX_ENCODED_SIZE == 5 && Generic::<u64, ()>::MAX_ENCODED_SIZE == 8, "the maximum size is not the sum of the fields");
		check!(ConstParam::<3, u16>::MAX_ENCODED_SIZE == 5, "the maximum size is not the sum of the fields");
	}

	/// structure with lifetimes
	fn borrowed_struct(6, 6) {
		let (x, y): (u8, u16) = (any(), any());
		let mut buf = [0u8; CAP];
		let n = enc(&Borrowed { x: &x, y: &y }, &mut buf);
		let mut w = W::new(&buf);
		y.wire(&mut w);
		x.wire(&mut w);
		check!(w.same && w.n == n && n == 3, "the encoding has wrong octets");
		check!(Borrowed::MAX_ENCODED_SIZE == 3, "the maximum size is not the sum of the fields");
		cover!(true, "encoded");
	}

	/// structure with fields of derived types
	fn nested_struct(6, 6) {
		follows::<Nested>();
		check!(Nested::MAX_ENCODED_SIZE == 2 + 6 + 7, "the maximum size is not the sum of the fields");
	}

	/// enumeration with every kind of variant
	fn kinds(6, 6) {
		follows::<Kinds>();
		discriminates::<Kinds>();
		check!(Kinds::MAX_ENCODED_SIZE == 1 + 5, "the maximum size is not that of the largest variant");
	}

	/// enumerations without representation
	fn plain(6, 6) {
		follows::<Plain>();
		discriminates::<Plain>();
		check!(Plain::MAX_ENCODED_SIZE == 2 + 5, "the maximum size is not that of the largest variant");
	}

	/// enumerations without representation, distant discriminants
	fn far(6, 6) {
		follows::<Far>();
		discriminates::<Far>();
		check!(Far::MAX_ENCODED_SIZE == 2, "the maximum size is not that of the largest variant");
	}

	/// repr(u8), repr(i8)
	fn repr_8(20, 20) {
		follows::<ReprU8>();
		discriminates::<ReprU8>();
		follows::<ReprI8>();
		discriminates::<ReprI8>();
		check!(ReprU8::MAX_ENCODED_SIZE == 3 && ReprI8::MAX_ENCODED_SIZE == 3, "the maximum size is not that of the largest variant");
	}

	/// repr(u16), repr(i16)
	fn repr_16(20, 20) {
		follows::<ReprU16>();
		discriminates::<ReprU16>();
		follows::<ReprI16>();
		discriminates::<ReprI16>();
		check!(ReprU16::MAX_ENCODED_SIZE == 4 && ReprI16::MAX_ENCODED_SIZE == 4, "the maximum size is not that of the largest variant");
	}

	/// repr(u32), repr(i32)
	fn repr_32(20, 20) {
		follows::<ReprU32>();
		discriminates::<ReprU32>();
		follows::<ReprI32>();
		discriminates::<ReprI32>();
		check!(ReprU32::MAX_ENCODED_SIZE == 6 && ReprI32::MAX_ENCODED_SIZE == 6, "the maximum size is not that of the largest variant");
	}

	/// repr(u64), repr(i64)
	fn repr_64(20, 20) {
		follows::<ReprU64>();
		discriminates::<ReprU64>();
		follows::<ReprI64>();
		discriminates::<ReprI64>();
		check!(ReprU64::MAX_ENCODED_SIZE == 10 && ReprI64::MAX_ENCODED_SIZE == 10, "the maximum size is not that of the largest variant");
	}

	/// repr(u128)
	fn repr_u128(20, 20) {
		follows::<ReprU128>();
		discriminates::<ReprU128>();
		check!(ReprU128::MAX_ENCODED_SIZE == 18, "the maximum size is not that of the largest variant");
	}

	/// repr(i128)
	fn repr_i128(20, 20) {
		follows::<ReprI128>();
		discriminates::<ReprI128>();
		check!(ReprI128::MAX_ENCODED_SIZE == 18, "the maximum size is not that of the largest variant");
	}

	/// no variants: every discriminant is rejected
	fn never(6, 6) {
		let raw: [u8; CAP] = any();
		match dec::<Never>(&raw).0 {
			Err(EnumDecodeError::UnassignedDiscriminant { value }) => check!(value == le16(&raw, 0) as i16 as isize, "the error reports another discriminant"),
			_ => panic!("a value of no type"),
		}
		check!(Never::MAX_ENCODED_SIZE <= 2, "the maximum size is wrong");
		cover!(true, "rejected");
	}

	/// repr(usize), repr(isize)
	fn repr_size(20, 20) {
		follows::<ReprUsize>();
		discriminates::<ReprUsize>();
		follows::<ReprIsize>();
		discriminates::<ReprIsize>();
		check!(ReprUsize::MAX_ENCODED_SIZE == 4 && ReprIsize::MAX_ENCODED_SIZE == 4, "the maximum size is not that of the largest variant");
	}

	/// discriminants beyond 16 bits are refused, not truncated
	fn too_far(6, 6) {
		let mut buf = [0u8; CAP];
		let x: u8 = any();
		let k: u8 = any();
		let v = match k { 0 => TooFar::A, 1 => TooFar::B, _ => TooFar::C };
		let mut o = Output::new(&mut buf);
		match v.encode(&mut o) {
			Ok(()) => check!(k == 0 && o.as_slice().len() == 2, "a discriminant beyond the limits is accepted"),
			Err(EnumEncodeError::BadDiscriminant(IsizeEncodeError(d))) => {
				check!(d == if k == 1 { 32768 } else { 70000 } && k != 0, "the error reports another discriminant");
				check!(o.position() == 0, "something was written before the refusal");
				cover!(k == 1, "refused");
			}
			Err(_) => panic!("another error"),
		}

		let v = if k == 0 { TooFarUnsigned::A } else { TooFarUnsigned::B(x) };
		let mut o = Output::new(&mut buf);
		match v.encode(&mut o) {
			Ok(()) => check!(k == 0 && o.position() == 2, "a discriminant beyond the limits is accepted"),
			Err(EnumEncodeError::BadDiscriminant(UsizeEncodeError(d))) => check!(d == 65536 && k != 0, "the error reports another discriminant"),
			Err(_) => panic!("another error"),
		}
	}

	/// the first bad field of a structure is reported as its generic cause
	fn decode_error_struct(6, 6) {
		let raw: [u8; CAP] = any();
		let n = le16(&raw, 1);
		let k = 3 + (n == 1) as usize;
		let assigned = matches!(raw[k], 0 | 7 | 8 | 3 | 4 | 255);
		let last = k + 1 + match raw[k] { 7 => 2, 8 => 5, _ => 0 };
		match dec::<Fallible>(&raw).0 {
			Ok(_) => check!(raw[0] != 0 && n <= 1 && assigned && raw[last] != 0, "an invalid field is accepted"),
			Err(GenericDecodeError::NullInteger(_)) => {
				check!(raw[0] == 0 || (n <= 1 && assigned && raw[last] == 0), "a valid field is rejected");
				cover!(raw[0] != 0, "the last field");
			}
			Err(GenericDecodeError::SmallBuffer(LengthError { capacity, len })) => {
				check!(raw[0] != 0 && n > 1 && capacity == 1 && len == n, "the error is wrong");
				cover!(true, "the second field");
			}
			Err(GenericDecodeError::UnassignedDiscriminant { value }) => {
				check!(raw[0] != 0 && n <= 1 && !assigned && value == raw[k] as u128, "the error is wrong");
				cover!(true, "the third field");
			}
			Err(_) => panic!("another error"),
		}
	}

	/// the first bad field of a variant is reported as its generic cause
	fn decode_error_enum(6, 6) {
		let raw: [u8; CAP] = any();
		let n = le16(&raw, 1);
		let k = raw[3 + (n == 1) as usize];
		match dec::<FallibleVariants>(&raw).0 {
			Ok(FallibleVariants::A(v)) => check!(raw[0] == 0 && v.get() == raw[1], "another value is decoded"),
			Ok(FallibleVariants::B { k: Inner::X, .. }) => check!(raw[0] == 1 && n <= 1 && k == 1, "another value is decoded"),
			Ok(FallibleVariants::B { k: Inner::Y, .. }) => check!(raw[0] == 1 && n <= 1 && k == 2, "another value is decoded"),
			Err(EnumDecodeError::UnassignedDiscriminant { value }) => check!(value == raw[0] && value > 1, "the error is wrong"),
			Err(EnumDecodeError::BadField(GenericDecodeError::NullInteger(_))) => check!(raw[0] == 0 && raw[1] == 0, "the error is wrong"),
			Err(EnumDecodeError::BadField(GenericDecodeError::SmallBuffer(LengthError { capacity, len }))) => {
				check!(raw[0] == 1 && n > 1 && capacity == 1 && len == n, "the error is wrong");
			}
			Err(EnumDecodeError::BadField(GenericDecodeError::UnassignedDiscriminant { value })) => {
				check!(raw[0] == 1 && n <= 1 && k != 1 && k != 2 && value == k as u128, "the error is wrong");
				cover!(value > 128, "a negative discriminant");
			}
			Err(_) => panic!("another error"),
		}
	}

	/// the first field that cannot be encoded is reported as its generic cause
	fn encode_error(6, 6) {
		let (a, b, c): (usize, isize, usize) = (any(), any(), any());
		let (fa, fb, fc) = (a <= 65535, b >= -32768 && b <= 32767, c <= 65535);
		let mut buf = [0u8; CAP];
		let mut o = Output::new(&mut buf);
		match (Numbers { a, b, c }).encode(&mut o) {
			Ok(()) => check!(fa && fb && fc && o.position() == 6, "a field beyond the limits is accepted"),
			Err(GenericEncodeError::LargeUsize(UsizeEncodeError(v))) => check!(if fa { fb && !fc && v == c } else { v == a }, "the error is wrong"),
			Err(GenericEncodeError::LargeIsize(IsizeEncodeError(v))) => {
				check!(fa && !fb && v == b, "the error is wrong");
				cover!(true, "the second field");
			}
			Err(_) => panic!("another error"),
		}

		let mut o = Output::new(&mut buf);
		let first: bool = any();
		let v = if first { NumberVariants::A(7, a) } else { NumberVariants::B { b, a } };
		match v.encode(&mut o) {
			Ok(()) => check!(fa && (first || fb), "a field beyond the limits is accepted"),
			Err(EnumEncodeError::BadField(GenericEncodeError::LargeUsize(UsizeEncodeError(v)))) => check!(!fa && v == a && (first || fb), "the error is wrong"),
			Err(EnumEncodeError::BadField(GenericEncodeError::LargeIsize(IsizeEncodeError(v)))) => check!(!first && !fb && v == b, "the error is wrong"),
			Err(_) => panic!("another error"),
		}
		check!(Numbers::MAX_ENCODED_SIZE == 6 && NumberVariants::MAX_ENCODED_SIZE == 5, "the maximum size is wrong");
	}

	/// enumerations that count on from notable discriminants
	fn counted(6, 6) {
		follows::<Counted8>(); follows::<Counted16>(); follows::<CountedSize>(); follows::<Notations>(); follows::<Among>();
		discriminates::<Counted8>(); discriminates::<Counted16>(); discriminates::<CountedSize>(); discriminates::<Notations>();
		discriminates::<Among>();
		check!(Counted8::MAX_ENCODED_SIZE == 1 && Notations::MAX_ENCODED_SIZE == 4 && Among::MAX_ENCODED_SIZE == 3, "the maximum size is wrong");
	}

	/// enumerations that count on from wide discriminants
	fn counted_wide(6, 6) {
		follows::<Counted64>(); follows::<Counted128>();
		discriminates::<Counted64>(); discriminates::<Counted128>();
	}

	/// many variants
	fn many_variants(6, 6) {
		follows::<Many>();
		discriminates::<Many>();
		check!(Many::MAX_ENCODED_SIZE == 4, "the maximum size is wrong");
	}

	/// many fields
	fn many_fields(6, 6) {
		follows::<Fields>();
		check!(Fields::MAX_ENCODED_SIZE == 27, "the maximum size is wrong");
	}

	/// variants of many fields
	fn wide_variants(6, 6) {
		follows::<Wide>();
		discriminates::<Wide>();
		check!(Wide::MAX_ENCODED_SIZE == 20, "the maximum size is wrong");
	}

	/// generic enumerations
	fn choice(6, 6) {
		follows::<Choice<u16>>();
		discriminates::<Choice<u16>>();
		check!(Choice::<u16>::MAX_ENCODED_SIZE == 9 && Choice::<[u64; 2]>::MAX_ENCODED_SIZE == 23, "the maximum size is wrong");
	}

	/// a structure with growable fields
	fn growable(6, 6) {
		let (s, v, t) = (Vec::<u8>::arb(), Vec::<Option<u8>>::arb(), any::<u16>());
		let mut buf = [0u8; CAP];
		let x = Growable { v, t, s };
		let n = enc(&x, &mut buf);
		let mut w = W::new(&buf);
		x.v.wire(&mut w);
		x.t.wire(&mut w);
		x.s.wire(&mut w);
		check!(w.same && w.n == n, "the encoding has wrong octets");
		forget(x);
	}
}

#[derive(Encode, Decode)]
struct Growable {
	v: Vec<Option<u8>>,
	t: u16,
	s: Vec<u8>,
}

#[derive(Encode, Decode, SizedEncode)]
enum Never {}
