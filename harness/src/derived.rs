//! Types with derived implementations, and their expected behaviour.
use crate::groups::prelude::*;
use oct::decode::Decode;
use oct::encode::{Encode, SizedEncode};
use oct::error::{GenericDecodeError, GenericEncodeError};

/// The expected behaviour of a structure: its fields, in order.
macro_rules! fields {
	($([$($g:tt)*])? $t:ty; $($f:tt $a:ident $b:ident: $ft:ty),*) => {
		impl$(<$($g)*>)? Ty for $t {
			#[allow(unused_variables)]
			fn arb() -> Self {
				Self { $($f: <$ft as Ty>::arb()),* }
			}
			fn wire(&self, _w: &mut W) {
				let Self { $($f: $a),* } = self;
				$($a.wire(_w);)*
			}
			fn same(&self, o: &Self) -> bool {
				let (Self { $($f: $a),* }, Self { $($f: $b),* }) = (self, o);
				true $(&& $a.same($b))*
			}
		}
	};
}

/// The expected behaviour of an enumeration: the discriminants, in so many
/// octets, then the fields, in order.
macro_rules! variants {
	($t:ty: $d:ty as $w:ty; $($tag:literal => $v:ident { $($f:tt $a:ident $b:ident: $ft:ty),* }),* $(,)?) => {
		impl Ty for $t {
			fn arb() -> Self {
				let k: u8 = any();
				let mut _n = 0;
				$(
					if k == _n {
						return Self::$v { $($f: <$ft as Ty>::arb()),* };
					}
					_n += 1;
				)*
				assume(false);
				unreachable!()
			}
			fn wire(&self, w: &mut W) {
				match self {
					$(Self::$v { $($f: $a),* } => {
						w.le($tag as $w as u128, size_of::<$w>());
						$($a.wire(w);)*
					})*
				}
			}
			fn same(&self, o: &Self) -> bool {
				match (self, o) {
					$((Self::$v { $($f: $a),* }, Self::$v { $($f: $b),* }) => true $(&& $a.same($b))*,)*
					#[allow(unreachable_patterns)]
					_ => false,
				}
			}
		}

		impl Tags for $t {
			type D = $d;
			fn tag(raw: &[u8; CAP]) -> $d {
				let mut v: u128 = 0;
				let mut i = size_of::<$w>();
				while i > 0 {
					i -= 1;
					v = v << 8 | raw[i] as u128;
				}
				v as $w as $d
			}
			fn assigned(tag: $d) -> bool {
				false $(|| tag == $tag)*
			}
		}
	};
}

pub trait Tags: Ty {
	type D: Decode + PartialEq + Copy;
	fn tag(raw: &[u8; CAP]) -> Self::D;
	fn assigned(tag: Self::D) -> bool;
}

#[derive(Encode, Decode, SizedEncode)]
pub struct Unit;
fields!(Unit;);

#[derive(Encode, Decode, SizedEncode)]
pub struct Empty();
fields!(Empty;);

#[derive(Encode, Decode, SizedEncode)]
pub struct Braces {}
fields!(Braces;);

#[derive(Encode, Decode, SizedEncode)]
pub struct One(u16);
fields!(One; 0 a b: u16);

#[derive(Encode, Decode, SizedEncode)]
pub struct Three(u8, u32, i16);
fields!(Three; 0 a b: u8, 1 c d: u32, 2 e f: i16);

/// The order of declaration is neither alphabetical nor that of the layout.
#[derive(Encode, Decode, SizedEncode)]
pub struct Named {
	z: u16,
	a: u8,
	m: i64,
	b: bool,
	stream: u8,
	value0: u16,
}
fields!(Named; z p q: u16, a r s: u8, m t u: i64, b v w: bool, stream x y: u8, value0 c d: u16);

#[derive(Encode, Decode, SizedEncode)]
pub struct Composite {
	o: Option<u16>,
	a: [u8; 3],
	s: SizedSlice<u8, 2>,
	t: (u8, u16),
}
fields!(Composite; o a b: Option<u16>, a c d: [u8; 3], s e f: SizedSlice<u8, 2>, t g h: (u8, u16));

#[derive(Encode, Decode, SizedEncode)]
pub struct Generic<T, U>
where
	T: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode,
	U: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode,
{
	u: U,
	t: T,
}
fields!(Generic<u8, u32>; u a b: u32, t c d: u8);

#[derive(Encode, Decode, SizedEncode)]
pub struct ConstParam<const N: usize, T: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode>(T, [u8; N]);
fields!(ConstParam<3, u16>; 0 a b: u16, 1 c d: [u8; 3]);

#[derive(Encode, Decode, SizedEncode)]
pub struct Nested {
	head: One,
	kind: Kinds,
	tail: Three,
}
fields!(Nested; head a b: One, kind c d: Kinds, tail e f: Three);

/// Every kind of variant; implicit discriminants after explicit ones; the
/// largest variant is in the middle.
#[derive(Encode, Decode, SizedEncode)]
#[repr(u8)]
pub enum Kinds {
	A,
	B(u16) = 7,
	C { y: u8, x: u32 },
	D() = 0x03,
	E {},
	F = 255,
}
variants!(Kinds: u8 as u8; 0 => A {}, 7 => B { 0 a b: u16 }, 8 => C { y a b: u8, x c d: u32 }, 3 => D {}, 4 => E {}, 255 => F {});

/// No representation; the largest variant is the first.
#[derive(Encode, Decode, SizedEncode)]
pub enum Plain {
	A(u32, u8),
	B,
	C(bool),
}
variants!(Plain: isize as i16; 0 => A { 0 a b: u32, 1 c d: u8 }, 1 => B {}, 2 => C { 0 a b: bool });

/// No representation; discriminants at the limits of 16 bits.
#[derive(Encode, Decode, SizedEncode)]
pub enum Far {
	A = 32_766,
	B,
	C = 0b101,
	D,
	E,
}
variants!(Far: isize as i16; 32766 => A {}, 32767 => B {}, 5 => C {}, 6 => D {}, 7 => E {});

macro_rules! reprs {
	($($n:ident: $d:tt as $w:ty, $big:tt, $next:tt;)*) => { $(
		/// The largest variant is the last.
		#[derive(Encode, Decode, SizedEncode)]
		#[repr($d)]
		pub enum $n {
			A = 2,
			B(u8),
			C = $big,
			D { v: u16 },
		}
		variants!($n: $d as $w; 2 => A {}, 3 => B { 0 a b: u8 }, $big => C {}, $next => D { v a b: u16 });
	)* };
}

reprs! {
	ReprU8: u8 as u8, 0xFE, 0xFF;
	ReprI8: i8 as i8, 126, 127;
	ReprU16: u16 as u16, 0xFFFE, 0xFFFF;
	ReprI16: i16 as i16, 0x7FFE, 0x7FFF;
	ReprU32: u32 as u32, 0xFFFFFFFE, 0xFFFFFFFF;
	ReprI32: i32 as i32, 0x7FFFFFFE, 0x7FFFFFFF;
	ReprU64: u64 as u64, 0xFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFF;
	ReprI64: i64 as i64, 0x7FFFFFFFFFFFFFFE, 0x7FFFFFFFFFFFFFFF;
	ReprU128: u128 as u128, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF;
	ReprI128: i128 as i128, 0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFE, 0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF;
	ReprUsize: usize as u16, 0xFFFE, 0xFFFF;
	ReprIsize: isize as i16, 0x7FFE, 0x7FFF;
}


/// Implicit discriminants after notable ones.
#[derive(Encode, Decode, SizedEncode)]
#[repr(u128)]
pub enum Counted128 {
	A0 = 9,
	B0,
	A1 = 99,
	B1,
	A2 = 127,
	B2,
	A3 = 255,
	B3,
	A4 = 999,
	B4,
	A5 = 32767,
	B5,
	A6 = 65535,
	B6,
	A7 = 2147483647,
	B7,
	A8 = 4294967295,
	B8,
	A9 = 9223372036854775807,
	B9,
	A10 = 18446744073709551615,
	B10,
	A11 = 9999999999999999999,
	B11,
	A12 = 170141183460469231731687303715884105727,
	B12,
}
variants!(Counted128: u128 as u128; 9 => A0 {}, 10 => B0 {}, 99 => A1 {}, 100 => B1 {}, 127 => A2 {}, 128 => B2 {}, 255 => A3 {}, 256 => B3 {}, 999 => A4 {}, 1000 => B4 {}, 32767 => A5 {}, 32768 => B5 {}, 65535 => A6 {}, 65536 => B6 {}, 2147483647 => A7 {}, 2147483648 => B7 {}, 4294967295 => A8 {}, 4294967296 => B8 {}, 9223372036854775807 => A9 {}, 9223372036854775808 => B9 {}, 18446744073709551615 => A10 {}, 18446744073709551616 => B10 {}, 9999999999999999999 => A11 {}, 10000000000000000000 => B11 {}, 170141183460469231731687303715884105727 => A12 {}, 170141183460469231731687303715884105728 => B12 {});

/// The same, in fewer octets.
#[derive(Encode, Decode, SizedEncode)]
#[repr(i64)]
pub enum Counted64 {
	A0 = 9,
	B0,
	A1 = 127,
	B1,
	A2 = 255,
	B2,
	A3 = 32767,
	B3,
	A4 = 65535,
	B4,
	A5 = 2147483647,
	B5,
	A6 = 4294967295,
	B6,
}
variants!(Counted64: i64 as i64; 9 => A0 {}, 10 => B0 {}, 127 => A1 {}, 128 => B1 {}, 255 => A2 {}, 256 => B2 {}, 32767 => A3 {}, 32768 => B3 {}, 65535 => A4 {}, 65536 => B4 {}, 2147483647 => A5 {}, 2147483648 => B5 {}, 4294967295 => A6 {}, 4294967296 => B6 {});

/// The same, in two octets.
#[derive(Encode, Decode, SizedEncode)]
#[repr(u16)]
pub enum Counted16 {
	A0 = 9,
	B0,
	A1 = 99,
	B1,
	A2 = 127,
	B2,
	A3 = 255,
	B3,
	A4 = 999,
	B4,
	A5 = 32767,
	B5,
}
variants!(Counted16: u16 as u16; 9 => A0 {}, 10 => B0 {}, 99 => A1 {}, 100 => B1 {}, 127 => A2 {}, 128 => B2 {}, 255 => A3 {}, 256 => B3 {}, 999 => A4 {}, 1000 => B4 {}, 32767 => A5 {}, 32768 => B5 {});

/// The same, in one octet.
#[derive(Encode, Decode, SizedEncode)]
#[repr(u8)]
pub enum Counted8 {
	A0 = 9,
	B0,
	A1 = 99,
	B1,
	A2 = 127,
	B2,
}
variants!(Counted8: u8 as u8; 9 => A0 {}, 10 => B0 {}, 99 => A1 {}, 100 => B1 {}, 127 => A2 {}, 128 => B2 {});

/// The same, without representation.
#[derive(Encode, Decode, SizedEncode)]
pub enum CountedSize {
	A0 = 9,
	B0,
	A1 = 99,
	B1,
	A2 = 127,
	B2,
	A3 = 255,
	B3,
	A4 = 16383,
	B4,
}
variants!(CountedSize: isize as i16; 9 => A0 {}, 10 => B0 {}, 99 => A1 {}, 100 => B1 {}, 127 => A2 {}, 128 => B2 {}, 255 => A3 {}, 256 => B3 {}, 16383 => A4 {}, 16384 => B4 {});

/// Discriminants in every notation, in decreasing order.
#[derive(Encode, Decode, SizedEncode)]
#[repr(u32)]
pub enum Notations {
	A = 0xFF_FFu32,
	B = 0b1_0000_0000,
	C = 0o17,
	D = 1_0,
	E,
	F = 000_3,
	G,
	H = 0x0,
}
variants!(Notations: u32 as u32; 65535 => A {}, 256 => B {}, 15 => C {}, 10 => D {}, 11 => E {}, 3 => F {}, 4 => G {}, 0 => H {});

/// Many variants, one of which has a field.
#[derive(Encode, Decode, SizedEncode)]
pub enum Many {
	V0,
	V1,
	V2,
	V3,
	V4,
	V5,
	V6,
	V7,
	V8,
	V9,
	V10,
	V11,
	V12,
	V13,
	V14,
	V15,
	V16,
	V17,
	V18,
	V19,
	V20,
	V21,
	V22,
	V23,
	V24,
	V25,
	V26,
	V27,
	V28,
	V29,
	V30,
	V31,
	V32,
	V33(u16),
	V34,
	V35,
	V36,
	V37,
	V38,
	V39,
}
variants!(Many: isize as i16; 0 => V0 {}, 1 => V1 {}, 2 => V2 {}, 3 => V3 {}, 4 => V4 {}, 5 => V5 {}, 6 => V6 {}, 7 => V7 {}, 8 => V8 {}, 9 => V9 {}, 10 => V10 {}, 11 => V11 {}, 12 => V12 {}, 13 => V13 {}, 14 => V14 {}, 15 => V15 {}, 16 => V16 {}, 17 => V17 {}, 18 => V18 {}, 19 => V19 {}, 20 => V20 {}, 21 => V21 {}, 22 => V22 {}, 23 => V23 {}, 24 => V24 {}, 25 => V25 {}, 26 => V26 {}, 27 => V27 {}, 28 => V28 {}, 29 => V29 {}, 30 => V30 {}, 31 => V31 {}, 32 => V32 {}, 33 => V33 { 0 a b: u16 }, 34 => V34 {}, 35 => V35 {}, 36 => V36 {}, 37 => V37 {}, 38 => V38 {}, 39 => V39 {});

/// Many fields.
#[derive(Encode, Decode, SizedEncode)]
pub struct Fields(u16, u8, u8, u16, u8, u8, u16, u8, u8, u16, u8, u8, u16, u8, u8, u16, u8, u8, u16, u8);
fields!(Fields; 0 a0 b0: u16, 1 a1 b1: u8, 2 a2 b2: u8, 3 a3 b3: u16, 4 a4 b4: u8, 5 a5 b5: u8, 6 a6 b6: u16, 7 a7 b7: u8, 8 a8 b8: u8, 9 a9 b9: u16, 10 a10 b10: u8, 11 a11 b11: u8, 12 a12 b12: u16, 13 a13 b13: u8, 14 a14 b14: u8, 15 a15 b15: u16, 16 a16 b16: u8, 17 a17 b17: u8, 18 a18 b18: u16, 19 a19 b19: u8);

/// Variants of many fields.
#[derive(Encode, Decode, SizedEncode)]
#[repr(u8)]
pub enum Wide {
	Named { f19: u16, f18: u8, f17: u8, f16: u16, f15: u8, f14: u8, f13: u16, f12: u8, f11: u8, f10: u16, f9: u8, f8: u8, f7: u16 },
	Tuple(u16, u8, u8, u16, u8, u8, u16, u8, u8, u16, u8, u8, u16, u8),
}
variants!(Wide: u8 as u8; 0 => Named { f19 a0 b0: u16, f18 a1 b1: u8, f17 a2 b2: u8, f16 a3 b3: u16, f15 a4 b4: u8, f14 a5 b5: u8, f13 a6 b6: u16, f12 a7 b7: u8, f11 a8 b8: u8, f10 a9 b9: u16, f9 a10 b10: u8, f8 a11 b11: u8, f7 a12 b12: u16 }, 1 => Tuple { 0 a0 b0: u16, 1 a1 b1: u8, 2 a2 b2: u8, 3 a3 b3: u16, 4 a4 b4: u8, 5 a5 b5: u8, 6 a6 b6: u16, 7 a7 b7: u8, 8 a8 b8: u8, 9 a9 b9: u16, 10 a10 b10: u8, 11 a11 b11: u8, 12 a12 b12: u16, 13 a13 b13: u8 });

/// A generic enumeration, and fields whose names are those of the derived code.
#[derive(Encode, Decode, SizedEncode)]
#[repr(i16)]
pub enum Choice<T: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode> {
	None,
	Some { value1: T, value0: u8, discriminant: u8, this: u8, value: u8, r#type: u8 },
	Other(T) = 300,
}
variants!(Choice<u16>: i16 as i16;
	0 => None {},
	1 => Some { value1 a b: u16, value0 c d: u8, discriminant e f: u8, this g h: u8, value i j: u8, r#type k l: u8 },
	300 => Other { 0 a b: u16 });

/// The derived attribute among others.
#[derive(Clone, Copy)]
#[derive(Encode, Decode, SizedEncode)]
#[repr(u16)]
#[derive(PartialEq)]
pub enum Among {
	A = 513,
	/// Documented.
	#[allow(dead_code)]
	B(#[allow(dead_code)] u8),
}
variants!(Among: u16 as u16; 513 => A {}, 514 => B { 0 a b: u8 });
