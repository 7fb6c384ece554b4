//! C17: converting an error to its generic form preserves the cause.
use crate::groups::prelude::*;
use oct::error::*;
use oct::PrimitiveDiscriminant;
use std::convert::Infallible;
use std::error::Error;

type D = GenericDecodeError;
type E = GenericEncodeError;

/// `e.source()` is exactly `want`.
fn source_is<T: Error + 'static>(e: &dyn Error, want: &T) {
	match e.source() {
		Some(s) => match s.downcast_ref::<T>() {
			Some(s) => check!(size_of::<T>() == 0 || std::ptr::eq(s, want), "the source is another error"),
			None => check!(false, "the source is of another kind"),
		},
		None => check!(false, "the source is missing"),
	}
}

/// A cause, its conversion, and its recognition.
trait Cause: Sized {
	type Details: Copy;
	fn details() -> Self::Details;
	fn make(d: Self::Details) -> Self;
}

trait DecodeCause: Cause + Into<D> + Error + 'static {
	fn is(d: Self::Details, e: &D) -> bool;
}

trait EncodeCause: Cause + Into<E> + Error + 'static {
	fn is(d: Self::Details, e: &E) -> bool;
}

macro_rules! decode_causes {
	($($t:ident($d:ty): |$x:pat_param| $make:expr, $p:pat => $same:expr;)*) => { $(
		impl Cause for $t {
			type Details = $d;
			fn details() -> $d { any() }
			fn make(x: $d) -> Self { let $x = x; $make }
		}

		impl DecodeCause for $t {
			fn is(x: $d, e: &D) -> bool {
				let $x = x;
				match e { $p => { source_is(e, $same.0); $same.1 } _ => false }
			}
		}
	)* };
}

decode_causes! {
	Utf8Error([usize; 2]): |[a, b]| Utf8Error { value: a as u8, index: b }, D::BadString(s) => (s, s.value == a as u8 && s.index == b);
	CStringDecodeError(usize): |a| CStringDecodeError { index: a }, D::NullString(s) => (s, s.index == a);
	NonZeroDecodeError(u8): |_| NonZeroDecodeError, D::NullInteger(s) => (s, true);
	LengthError([usize; 2]): |[a, b]| LengthError { capacity: a, len: b }, D::SmallBuffer(s) => (s, s.capacity == a && s.len == b);
	SystemTimeDecodeError(i64): |a| SystemTimeDecodeError { timestamp: a }, D::NarrowSystemTime(s) => (s, s.timestamp == a);
}

macro_rules! encode_causes {
	($($t:ident($d:ty): |$x:pat_param| $make:expr, $p:pat => $same:expr;)*) => { $(
		impl Cause for $t {
			type Details = $d;
			fn details() -> $d { any() }
			fn make(x: $d) -> Self { let $x = x; $make }
		}

		impl EncodeCause for $t {
			fn is(x: $d, e: &E) -> bool {
				let $x = x;
				match e { $p => { source_is(e, $same.0); $same.1 } _ => false }
			}
		}
	)* };
}

encode_causes! {
	UsizeEncodeError(usize): |a| UsizeEncodeError(a), E::LargeUsize(s) => (s, s.0 == a);
	IsizeEncodeError(isize): |a| IsizeEncodeError(a), E::LargeIsize(s) => (s, s.0 == a);
}

/// The cause itself, and the cause within collections, items and enum fields.
fn decode_cause<C: DecodeCause>() {
	let d = C::details();

	macro_rules! keeps {
		($e:expr) => {{
			let g: D = $e.into();
			check!(C::is(d, &g), "the cause is lost");
		}};
	}

	keeps!(C::make(d));
	keeps!(ItemDecodeError { index: any::<usize>(), error: C::make(d) });
	keeps!(CollectionDecodeError::<C, Infallible>::BadLength(C::make(d)));
	keeps!(CollectionDecodeError::<Infallible, C>::BadItem(C::make(d)));
	keeps!(EnumDecodeError::<u8, C>::BadField(C::make(d)));
	keeps!(EnumDecodeError::<i128, C>::BadField(C::make(d)));
}

fn decode_cause_deep<C: DecodeCause>() {
	let d = C::details();

	macro_rules! keeps {
		($e:expr) => {{
			let g: D = $e.into();
			check!(C::is(d, &g), "the cause is lost");
		}};
	}

	macro_rules! item {
		($e:expr) => { CollectionDecodeError::<LengthError, _>::BadItem(ItemDecodeError { index: any::<usize>(), error: $e }) };
	}

	keeps!(item!(C::make(d)));
	keeps!(item!(item!(C::make(d))));
	keeps!(item!(CollectionDecodeError::<C, Utf8Error>::BadLength(C::make(d))));
	keeps!(item!(item!(item!(CollectionDecodeError::<C, Utf8Error>::BadItem(Utf8Error { value: 0, index: 0 }).map(C::make(d))))));
	keeps!(EnumDecodeError::<u16, D>::BadField(EnumDecodeError::<u8, _>::BadField(item!(C::make(d))).into()));
	keeps!(item!(EnumDecodeError::<isize, _>::BadField(item!(C::make(d)))));
}

/// Puts the cause in place of the item.
trait Map<C> {
	fn map(self, c: C) -> CollectionDecodeError<C, C>;
}

impl<C> Map<C> for CollectionDecodeError<C, Utf8Error> {
	fn map(self, c: C) -> CollectionDecodeError<C, C> {
		match self { Self::BadLength(_) => CollectionDecodeError::BadLength(c), Self::BadItem(_) => CollectionDecodeError::BadItem(c) }
	}
}

fn encode_cause<C: EncodeCause>() {
	let d = C::details();

	macro_rules! keeps {
		($e:expr) => {{
			let g: E = $e.into();
			check!(C::is(d, &g), "the cause is lost");
		}};
	}

	macro_rules! item {
		($e:expr) => { CollectionEncodeError::<UsizeEncodeError, _>::BadItem(ItemEncodeError { index: any::<usize>(), error: $e }) };
	}

	keeps!(C::make(d));
	keeps!(ItemEncodeError { index: any::<usize>(), error: C::make(d) });
	keeps!(CollectionEncodeError::<C, Infallible>::BadLength(C::make(d)));
	keeps!(CollectionEncodeError::<Infallible, C>::BadItem(C::make(d)));
	keeps!(EnumEncodeError::<u8, C>::BadField(C::make(d)));
	keeps!(item!(C::make(d)));
	keeps!(item!(item!(C::make(d))));
	keeps!(item!(CollectionEncodeError::<C, UsizeEncodeError>::BadLength(C::make(d))));
	keeps!(EnumEncodeError::<u16, E>::BadField(EnumEncodeError::<u8, _>::BadField(item!(C::make(d))).into()));
	keeps!(item!(EnumEncodeError::<usize, _>::BadField(item!(C::make(d)))));
}

fn unassigned<T: PrimitiveDiscriminant + Decode<Error: Into<D>> + std::fmt::Debug + crate::sym::Sym>(zero_extend: impl Fn(T) -> u128) {
	let v: T = any();
	let want = zero_extend(v);
	let kept = |g: D| {
		check!(g.source().is_none(), "a source appears");
		check!(matches!(g, D::UnassignedDiscriminant { value } if value == want), "the discriminant is altered");
	};
	kept(EnumDecodeError::<T, Infallible>::UnassignedDiscriminant { value: v }.into());
	kept(EnumDecodeError::<T, Utf8Error>::UnassignedDiscriminant { value: v }.into());
	kept(CollectionDecodeError::<LengthError, _>::BadItem(ItemDecodeError {
		index: any::<usize>(),
		error: EnumDecodeError::<T, Utf8Error>::UnassignedDiscriminant { value: v },
	}).into());
	kept(EnumDecodeError::<u8, _>::BadField(EnumDecodeError::<T, Utf8Error>::UnassignedDiscriminant { value: v }).into());
}

fn refused_borrow(convert: impl Fn(std::cell::BorrowError) -> E) {
	let c = RefCell::new(any::<u8>());
	let guard = c.borrow_mut();
	match c.try_borrow() {
		Ok(_) => check!(false, "a cell is borrowed twice"),
		Err(e) => {
			let g = convert(e);
			match &g {
				E::BadBorrow(b) => source_is(&g, b),
				_ => check!(false, "the cause is lost"),
			}
		}
	}
	drop(guard);
}

harnesses! {
	/// string errors
	fn utf8(6, 6) { decode_cause::<Utf8Error>(); decode_cause_deep::<Utf8Error>(); }

	/// C string errors
	fn c_string(6, 6) { decode_cause::<CStringDecodeError>(); decode_cause_deep::<CStringDecodeError>(); }

	/// null integers
	fn non_zero(6, 6) { decode_cause::<NonZeroDecodeError>(); decode_cause_deep::<NonZeroDecodeError>(); }

	/// length errors
	fn length(6, 6) { decode_cause::<LengthError>(); decode_cause_deep::<LengthError>(); }

	/// system times
	fn system_time(6, 6) { decode_cause::<SystemTimeDecodeError>(); decode_cause_deep::<SystemTimeDecodeError>(); }

	/// refused usize
	fn usize_(6, 6) { encode_cause::<UsizeEncodeError>(); }

	/// refused isize
	fn isize_(6, 6) { encode_cause::<IsizeEncodeError>(); }

	/// refused discriminants, by type
	fn discriminant(6, 6) {
		let a: usize = any();
		let g: E = EnumEncodeError::<usize, Infallible>::BadDiscriminant(UsizeEncodeError(a)).into();
		check!(matches!(g, E::LargeUsize(UsizeEncodeError(v)) if v == a), "the cause is lost");
		let a: isize = any();
		let g: E = EnumEncodeError::<isize, UsizeEncodeError>::BadDiscriminant(IsizeEncodeError(a)).into();
		check!(matches!(g, E::LargeIsize(IsizeEncodeError(v)) if v == a), "the cause is lost");
		let g: E = EnumEncodeError::<isize, UsizeEncodeError>::BadField(UsizeEncodeError(a as usize)).into();
		check!(matches!(g, E::LargeUsize(UsizeEncodeError(v)) if v == a as usize), "the cause is lost");
	}

	/// failed borrows
	fn borrow(6, 6) { refused_borrow(|e| e.into()); }

	/// failed borrows of an item
	fn borrow_item(6, 6) { refused_borrow(|e| ItemEncodeError { index: 1u8, error: e }.into()); }

	/// failed borrows within a collection
	fn borrow_collection(6, 6) {
		refused_borrow(|e| CollectionEncodeError::<UsizeEncodeError, _>::BadItem(ItemEncodeError { index: 1usize, error: e }).into());
	}

	/// failed borrows of a field
	fn borrow_field(6, 6) { refused_borrow(|e| EnumEncodeError::<u8, _>::BadField(e).into()); }

	/// sources of reference cell errors
	fn ref_cell(6, 6) {
		let c = RefCell::new(any::<u8>());
		let guard = c.borrow_mut();
		if let Err(e) = c.try_borrow() {
			let e = RefCellEncodeError::<UsizeEncodeError>::BadBorrow(e);
			match &e {
				RefCellEncodeError::BadBorrow(b) => source_is(&e, b),
				_ => check!(false, "the cause is lost"),
			}
		}
		drop(guard);
	}

	/// sources of reference cell errors about the value
	fn ref_cell_value(6, 6) {
		let a: usize = any();
		let e = RefCellEncodeError::BadValue(UsizeEncodeError(a));
		match &e {
			RefCellEncodeError::BadValue(v) => { check!(v.0 == a, "the cause is lost"); source_is(&e, v) }
			_ => {}
		}
	}

	/// unassigned discriminants up to 32 bits
	fn unassigned_narrow(6, 6) {
		unassigned::<u8>(|v| v.to_le_bytes()[0] as u128);
		unassigned::<i8>(|v| v.to_le_bytes()[0] as u128);
		unassigned::<u16>(|v| u16::from_le_bytes(v.to_le_bytes()) as u128);
		unassigned::<i16>(|v| u16::from_le_bytes(v.to_le_bytes()) as u128);
		unassigned::<u32>(|v| u32::from_le_bytes(v.to_le_bytes()) as u128);
		unassigned::<i32>(|v| u32::from_le_bytes(v.to_le_bytes()) as u128);
	}

	/// unassigned discriminants of more bits
	fn unassigned_wide(6, 6) {
		unassigned::<u64>(|v| u64::from_le_bytes(v.to_le_bytes()) as u128);
		unassigned::<i64>(|v| u64::from_le_bytes(v.to_le_bytes()) as u128);
		unassigned::<u128>(|v| v);
		unassigned::<i128>(|v| u128::from_le_bytes(v.to_le_bytes()));
		unassigned::<usize>(|v| u64::from_le_bytes(v.to_le_bytes()) as u128);
		unassigned::<isize>(|v| u64::from_le_bytes(v.to_le_bytes()) as u128);
	}

	/// sources of composite decode errors
	fn decode_sources(6, 6) {
		let e = ItemDecodeError { index: any::<usize>(), error: LengthError { capacity: any(), len: any() } };
		source_is(&e, &e.error);
		let e = CollectionDecodeError::<LengthError, Utf8Error>::BadLength(LengthError { capacity: any(), len: any() });
		if let CollectionDecodeError::BadLength(s) = &e { source_is(&e, s) }
		let e = CollectionDecodeError::<LengthError, Utf8Error>::BadItem(Utf8Error { value: any(), index: any() });
		if let CollectionDecodeError::BadItem(s) = &e { source_is(&e, s) }
		let e = EnumDecodeError::<u8, Utf8Error>::BadField(Utf8Error { value: any(), index: any() });
		if let EnumDecodeError::BadField(s) = &e { source_is(&e, s) }
		let e = EnumDecodeError::<u8, Utf8Error>::UnassignedDiscriminant { value: any() };
		check!(e.source().is_none(), "a source appears");
		let e = StringError::BadUtf8(Utf8Error { value: any(), index: any() });
		if let StringError::BadUtf8(s) = &e { source_is(&e, s) }
		let e = StringError::BadUtf16(Utf16Error { value: any(), index: any() });
		if let StringError::BadUtf16(s) = &e { source_is(&e, s) }
		let e = StringError::SmallBuffer(LengthError { capacity: any(), len: any() });
		if let StringError::SmallBuffer(s) = &e { source_is(&e, s) }
	}

	/// sources of composite encode errors
	fn encode_sources(6, 6) {
		let e = ItemEncodeError { index: any::<usize>(), error: UsizeEncodeError(any()) };
		source_is(&e, &e.error);
		let e = CollectionEncodeError::<UsizeEncodeError, IsizeEncodeError>::BadLength(UsizeEncodeError(any()));
		if let CollectionEncodeError::BadLength(s) = &e { source_is(&e, s) }
		let e = CollectionEncodeError::<UsizeEncodeError, IsizeEncodeError>::BadItem(IsizeEncodeError(any()));
		if let CollectionEncodeError::BadItem(s) = &e { source_is(&e, s) }
		let e = EnumEncodeError::<usize, IsizeEncodeError>::BadDiscriminant(UsizeEncodeError(any()));
		if let EnumEncodeError::BadDiscriminant(s) = &e { source_is(&e, s) }
		let e = EnumEncodeError::<usize, IsizeEncodeError>::BadField(IsizeEncodeError(any()));
		if let EnumEncodeError::BadField(s) = &e { source_is(&e, s) }
	}

	/// plain causes have no source
	fn plain(6, 6) {
		check!(LengthError { capacity: any(), len: any() }.source().is_none(), "a source appears");
		check!(Utf8Error { value: any(), index: any() }.source().is_none(), "a source appears");
		check!(Utf16Error { value: any(), index: any() }.source().is_none(), "a source appears");
		check!(CStringDecodeError { index: any() }.source().is_none(), "a source appears");
		check!(CharDecodeError { code_point: any() }.source().is_none(), "a source appears");
		check!(NonZeroDecodeError.source().is_none(), "a source appears");
		check!(SystemTimeDecodeError { timestamp: any() }.source().is_none(), "a source appears");
		check!(UsizeEncodeError(any()).source().is_none(), "a source appears");
		check!(IsizeEncodeError(any()).source().is_none(), "a source appears");
		check!(InputError { capacity: any(), position: any(), count: any() }.source().is_none(), "a source appears");
		check!(OutputError { capacity: any(), position: any(), count: any() }.source().is_none(), "a source appears");
	}

	/// decoding rejected octets, end to end
	fn end_to_end(8, 8) {
		// A list of one list of non-zero numbers.
		let raw: [u8; 6] = [1, 0, any(), any(), any(), any()];
		let n = u16::from_le_bytes([raw[2], raw[3]]) as usize;
		match dec::<SizedSlice<SizedSlice<NonZero<u8>, 2>, 2>>(&raw).0 {
			Err(e) => match D::from(e) {
				D::SmallBuffer(LengthError { capacity, len }) => check!(n > 2 && capacity == 2 && len == n, "the cause is altered"),
				D::NullInteger(_) => check!(n <= 2 && n > 0 && (raw[4] == 0 || raw[5] == 0), "the cause is altered"),
				_ => check!(false, "the cause is lost"),
			},
			Ok(_) => cover!(n == 2, "accepted"),
		}
		cover!(n == 258, "too long");
	}

	/// encoding refused numbers, end to end
	fn end_to_end_encode(8, 8) {
		let v: [[usize; 2]; 2] = any();
		let mut buf = [0u8; 16];
		let mut o = Output::new(&mut buf);
		match v.encode(&mut o) {
			Err(e) => {
				let first = if v[0][0] > 0xFFFF { v[0][0] } else if v[0][1] > 0xFFFF { v[0][1] } else if v[1][0] > 0xFFFF { v[1][0] } else { v[1][1] };
				check!(matches!(E::from(e), E::LargeUsize(UsizeEncodeError(a)) if a == first), "the cause is lost");
				cover!(v[1][0] > 0xFFFF && v[0][0] < 9 && v[0][1] < 9, "late");
			}
			Ok(()) => check!(v[0][0] <= 0xFFFF && v[1][1] <= 0xFFFF, "a refused number is accepted"),
		}
	}
}
