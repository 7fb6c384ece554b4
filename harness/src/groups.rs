//! The fixed-layout types, in groups of similar cost. `fixed_groups!(f)`
//! declares one harness per group, which calls `f::<T>()` for each type.

#[macro_export]
macro_rules! fixed_groups {
	($f:ident $(, $($extra:tt)*)?) => {
		$crate::harnesses! {
			$($($extra)*)?

			/// u8, u16, u32
			fn unsigned(20, 20) {
				$f::<u8>(); $f::<u16>(); $f::<u32>();
			}

			/// u64, u128, usize
			fn unsigned_wide(20, 20) {
				$f::<u64>(); $f::<u128>(); $f::<usize>();
			}

			/// i8, i16, i32
			fn signed(20, 20) {
				$f::<i8>(); $f::<i16>(); $f::<i32>();
			}

			/// i64, i128, isize
			fn signed_wide(20, 20) {
				$f::<i64>(); $f::<i128>(); $f::<isize>();
			}

			/// f32, f64, bool, char
			fn scalars(20, 20) {
				$f::<f32>(); $f::<f64>(); $f::<bool>(); $f::<char>();
			}

			/// NonZero of u8, u16, u32
			fn nonzero_unsigned(20, 20) {
				$f::<NonZero<u8>>(); $f::<NonZero<u16>>(); $f::<NonZero<u32>>();
			}

			/// NonZero of u64, u128, usize
			fn nonzero_unsigned_wide(20, 20) {
				$f::<NonZero<u64>>(); $f::<NonZero<u128>>(); $f::<NonZero<usize>>();
			}

			/// NonZero of i8, i16, i32
			fn nonzero_signed(20, 20) {
				$f::<NonZero<i8>>(); $f::<NonZero<i16>>(); $f::<NonZero<i32>>();
			}

			/// NonZero of i64, i128, isize
			fn nonzero_signed_wide(20, 20) {
				$f::<NonZero<i64>>(); $f::<NonZero<i128>>(); $f::<NonZero<isize>>();
			}

			/// AtomicBool, AtomicU8, AtomicU16
			fn atomics_unsigned(20, 20) {
				$f::<AtomicBool>(); $f::<AtomicU8>(); $f::<AtomicU16>();
			}

			/// AtomicU32, AtomicU64, AtomicUsize
			fn atomics_unsigned_wide(20, 20) {
				$f::<AtomicU32>(); $f::<AtomicU64>(); $f::<AtomicUsize>();
			}

			/// AtomicI8, AtomicI16, AtomicI32
			fn atomics_signed(20, 20) {
				$f::<AtomicI8>(); $f::<AtomicI16>(); $f::<AtomicI32>();
			}

			/// AtomicI64, AtomicIsize
			fn atomics_signed_wide(20, 20) {
				$f::<AtomicI64>(); $f::<AtomicIsize>();
			}

			/// Wrapping of u8, i32, u64, usize
			fn wrapping(20, 20) {
				$f::<Wrapping<u8>>(); $f::<Wrapping<i32>>(); $f::<Wrapping<u64>>(); $f::<Wrapping<usize>>();
			}

			/// Saturating of u8, i32, u64, isize
			fn saturating(20, 20) {
				$f::<Saturating<u8>>(); $f::<Saturating<i32>>(); $f::<Saturating<u64>>(); $f::<Saturating<isize>>();
			}

			/// unit, PhantomData, RangeFull, the empty array
			fn empty(6, 6) {
				$f::<()>(); $f::<PhantomData<u64>>(); $f::<RangeFull>(); $f::<[u16; 0]>();
			}

			/// arrays of one u64, two i16
			fn arrays_12(10, 10) {
				$f::<[u64; 1]>(); $f::<[i16; 2]>();
			}

			/// arrays of three u8
			fn arrays_3(6, 6) {
				$f::<[u8; 3]>();
			}

			/// arrays of four u32
			fn arrays_4(6, 6) {
				$f::<[u32; 4]>();
			}

			/// arrays of seventeen u8
			fn arrays_17(20, 20) {
				$f::<[u8; 17]>();
			}

			/// arrays of three arrays of two u8
			fn arrays_nested(6, 6) {
				$f::<[[u8; 2]; 3]>();
			}

			/// tuples of one to three members of different widths
			fn tuples_123(20, 20) {
				$f::<(u32,)>(); $f::<(u8, u64)>(); $f::<(u16, bool, i8)>();
			}

			/// tuples of four and five members of different widths
			fn tuples_45(20, 20) {
				$f::<(i8, u16, u32, u64)>(); $f::<(u64, u32, u16, u8, i16)>();
			}

			/// tuples of six and seven members of different widths
			fn tuples_67(20, 20) {
				$f::<(u8, u16, u8, u32, u8, u16)>(); $f::<(u16, u8, u8, u8, u32, u8, u16)>();
			}

			/// tuples of eight and nine members of different widths
			fn tuples_89(20, 20) {
				$f::<(u8, u8, u16, u8, u8, u8, u16, u8)>(); $f::<(u8, u16, u8, u8, u16, u8, u8, u16, u8)>();
			}

			/// tuples of ten members of different widths
			fn tuples_10(20, 20) {
				$f::<(u8, u16, u8, u8, u8, u8, u8, u16, u8, u8)>();
			}

			/// tuples of eleven members of different widths
			fn tuples_11(20, 20) {
				$f::<(u8, u8, u8, u8, u16, u8, u8, u8, u8, u16, u8)>();
			}

			/// tuples of twelve members of different widths
			fn tuples_12(20, 20) {
				$f::<(u16, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16, u8)>();
			}

			/// Option of u16, (), Option<bool>
			fn options(20, 20) {
				$f::<Option<u16>>(); $f::<Option<()>>(); $f::<Option<Option<bool>>>();
			}

			/// Result<u8, u32>, Result<u64, ()>
			fn results(20, 20) {
				$f::<Result<u8, u32>>(); $f::<Result<u64, ()>>();
			}

			/// Result<Option<bool>, u8>
			fn results_nested(20, 20) {
				$f::<Result<Option<bool>, u8>>();
			}

			/// Bound of u32, ()
			fn bounds(20, 20) {
				$f::<Bound<u32>>(); $f::<Bound<()>>();
			}

			/// (Option<u16>, u8), Option<(u16, u8)>
			fn nested_tuple(6, 6) {
				$f::<(Option<u16>, u8)>(); $f::<Option<(u16, u8)>>();
			}

			/// Bound<Option<u8>>, Option<Bound<u8>>
			fn nested_bound(6, 6) {
				$f::<Bound<Option<u8>>>(); $f::<Option<Bound<u8>>>();
			}

			/// Result<Bound<u8>, Bound<u8>>
			fn nested_result(6, 6) {
				$f::<Result<Bound<u8>, Bound<u8>>>();
			}

			/// arrays of three Option<u8>
			fn array_of_tagged(6, 6) {
				$f::<[Option<u8>; 3]>();
			}

			/// optional arrays of three u8
			fn tagged_array(6, 6) {
				$f::<Option<[u8; 3]>>();
			}

			/// Range<u16>, RangeInclusive<u32>, Range<Option<u8>>
			fn ranges(20, 20) {
				$f::<Range<u16>>(); $f::<RangeInclusive<u32>>(); $f::<Range<Option<u8>>>();
			}

			/// RangeFrom, RangeTo, RangeToInclusive
			fn ranges_half(20, 20) {
				$f::<RangeFrom<u64>>(); $f::<RangeTo<i8>>(); $f::<RangeToInclusive<i32>>();
			}

			/// IPv4 and IPv6 addresses
			fn ip(20, 20) {
				$f::<Ipv4Addr>(); $f::<Ipv6Addr>();
			}

			/// IpAddr
			fn ip_any(20, 20) {
				$f::<IpAddr>();
			}

			/// IPv4 and IPv6 socket addresses
			fn socket(20, 20) {
				$f::<SocketAddrV4>(); $f::<SocketAddrV6>();
			}

			/// SocketAddr
			fn socket_any(20, 20) {
				$f::<SocketAddr>();
			}

			/// Duration
			fn duration(20, 20) {
				$f::<Duration>();
			}

			/// SystemTime at whole seconds, before and after the epoch
			fn system_time(20, 20) {
				$f::<SystemTime>();
			}

			/// derived structures: unit, empty, one, three and six fields
			fn derived_structs(20, 20) {
				$f::<Unit>(); $f::<Empty>(); $f::<Braces>(); $f::<One>(); $f::<Three>(); $f::<Named>();
			}

			/// derived structures: composite and generic fields
			fn derived_composite(20, 20) {
				$f::<Composite>(); $f::<Generic<u8, u32>>(); $f::<ConstParam<3, u16>>();
			}

			/// derived structures of derived types
			fn derived_nested(20, 20) {
				$f::<Nested>(); $f::<Option<Plain>>();
			}

			/// derived enumerations: every kind of variant, the largest variant first, last or in the middle
			fn derived_enums(20, 20) {
				$f::<Kinds>(); $f::<Plain>(); $f::<Far>(); $f::<ReprIsize>();
			}

			/// derived enumerations of every other representation
			fn derived_reprs(20, 20) {
				$f::<ReprU8>(); $f::<ReprI8>(); $f::<ReprU16>(); $f::<ReprI16>(); $f::<ReprUsize>();
			}

			/// derived enumerations of wide representations
			fn derived_reprs_wide(20, 20) {
				$f::<ReprU32>(); $f::<ReprI32>(); $f::<ReprU64>(); $f::<ReprI64>(); $f::<ReprU128>(); $f::<ReprI128>();
			}
		}
	};
}

/// Passes `$pre`, the collections, and `extra` on to the macro `$cb`.
#[macro_export]
macro_rules! coll_items {
	($cb:ident [$($pre:tt)*] $f:ident $($extra:tt)*) => {
		$crate::$cb! {
			$($pre)*

			/// Vec<u16>, up to LEN elements
			fn vec_u16(6, 7) {
				$f::<Vec<u16>>();
			}

			/// Vec<u8>, up to LEN elements
			fn vec_u8(6, 7) {
				$f::<Vec<u8>>();
			}

			/// Vec<Option<u8>>, up to LEN elements
			fn vec_opt(6, 7) {
				$f::<Vec<Option<u8>>>();
			}

			/// Vec<()>, up to LEN elements
			fn vec_unit(6, 7) {
				$f::<Vec<()>>();
			}

			/// LinkedList<u16>, up to LEN elements
			fn list(6, 7) {
				$f::<LinkedList<u16>>();
			}

			/// SizedSlice<u16, 3>, every length
			fn sized_u16(6, 7) {
				$f::<SizedSlice<u16, 3>>();
			}

			/// SizedSlice<Option<u8>, 2>, every length; SizedSlice<u8, 0>
			fn sized_opt(6, 7) {
				$f::<SizedSlice<Option<u8>, 2>>(); $f::<SizedSlice<u8, 0>>();
			}

			/// tuples of collections
			fn coll_tuple(6, 7) {
				$f::<(SizedSlice<u8, 2>, SizedSlice<u8, 1>)>();
			}

			/// the empty String
			fn text_0(6, 7) {
				$f::<Text<0>>();
			}

			/// String of 1 octet
			fn text_1(6, 7) {
				$f::<Text<1>>();
			}

			/// String of 2 octets
			fn text_2(6, 7) {
				$f::<Text<2>>();
			}

			/// String of 3 octets
			fn text_3(6, 7) {
				$f::<Text<3>>();
			}

			/// String of 4 octets
			fn text_4(6, 7) {
				$f::<Text<4>>();
			}

			/// SizedStr<4> of 0 and 2 octets
			fn sized_text(6, 7) {
				$f::<SText<0, 4>>(); $f::<SText<2, 4>>();
			}

			/// SizedStr<3> of 3 octets
			fn sized_text_full(6, 7) {
				$f::<SText<3, 3>>();
			}

			/// CString of 0 and 1 octets
			fn c_text_01(8, 8) {
				$f::<CText<0>>(); $f::<CText<1>>();
			}

			/// CString of 2 octets
			fn c_text_2(8, 8) {
				$f::<CText<2>>();
			}

			/// CString of 3 octets
			fn c_text_3(8, 8) {
				$f::<CText<3>>();
			}

			/// String of 9 octets
			fn long_text(13, 13) {
				$f::<Text<9>>();
			}

			/// SizedStr<9> of 9 octets
			fn long_sized_text(13, 13) {
				$f::<SText<9, 9>>();
			}

			/// CString of 9 octets
			fn long_c_text(13, 13) {
				$f::<CText<9>>();
			}

			/// Vec<u8> of 17 elements
			fn long_vec(20, 20) {
				$f::<LVec<17>>();
			}

			/// SizedSlice<u8, 17> of 17 elements
			fn long_sized(20, 20) {
				$f::<LSlice<17>>();
			}

			/// LinkedList<u8> of 9 elements
			fn long_list(12, 12) {
				$f::<LList<9>>();
			}

			/// Box, Cell of numbers, Cow
			fn pointers(6, 7) {
				$f::<Box<u32>>(); $f::<Cell<char>>(); $f::<Cow<'static, u32>>();
			}

			/// Rc, Arc of numbers and tags
			fn counted(6, 7) {
				$f::<Rc<Option<u8>>>(); $f::<Arc<u16>>();
			}

			/// Mutex, RwLock of numbers
			fn locks(6, 7) {
				$f::<Mutex<u32>>(); $f::<RwLock<u16>>();
			}

			/// RefCell of a number
			fn ref_cell(6, 7) {
				$f::<RefCell<u64>>();
			}

			$($extra)*
		}
	};
}

/// One harness per group of collections, and `extra`.
#[macro_export]
macro_rules! coll_groups {
	($f:ident $(, $($extra:tt)*)?) => {
		$crate::coll_items! { harnesses [] $f $($($extra)*)? }
	};
}

/// One harness per group of any kind, and `extra`.
#[macro_export]
macro_rules! all_groups {
	($f:ident $(, $($extra:tt)*)?) => {
		$crate::coll_items! { fixed_groups [$f,] $f $($($extra)*)? }
	};
}

/// What the groups refer to.
pub mod prelude {
	pub use crate::coll::*;
	pub use crate::derived::*;
	pub use crate::sym::{any, assume};
	pub use crate::util::*;
	pub use crate::wire::{Ty, CAP, W};
	pub use crate::utf8::utf8_valid_up_to;
	pub use crate::{all_groups, check, coll_groups, cover, fixed_groups, harnesses, must_panic};
	pub use oct::{SizedSlice, SizedStr};
	pub use std::borrow::Cow;
	pub use std::cell::{Cell, RefCell};
	pub use std::collections::LinkedList;
	pub use std::rc::Rc;
	pub use std::sync::{Arc, Mutex, RwLock};
	pub use oct::decode::{Decode, Input};
	pub use oct::encode::{Encode, Output, SizedEncode};
	pub use std::marker::{PhantomData, PhantomPinned};
	pub use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
	pub use std::num::{NonZero, Saturating, Wrapping};
	pub use std::ops::{Bound, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
	pub use std::sync::atomic::*;
	pub use std::time::{Duration, SystemTime, UNIX_EPOCH};
}
