//! Reference encoding, written from the documented wire format only.
//!
//! Octets are produced by shifting; nothing of `oct` is used.

use crate::sym::{any, assume};
use std::marker::{PhantomData, PhantomPinned};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::{Bound, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
use std::sync::atomic::*;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// Capacity of the reference buffers.
pub const CAP: usize = 48;

/// Compares an encoding, octet by octet, with the documented one.
pub struct W<'a> {
	/// What was encoded.
	pub b: &'a [u8; CAP],
	/// Octets compared so far.
	pub n: usize,
	pub same: bool,
	/// Whether any non-zero octet counts as true.
	pub lenient: bool,
}

impl<'a> W<'a> {
	pub fn new(b: &'a [u8; CAP]) -> Self {
		Self { b, n: 0, same: true, lenient: false }
	}

	pub fn lenient(b: &'a [u8; CAP]) -> Self {
		Self { b, n: 0, same: true, lenient: true }
	}

	/// A truth tag.
	#[inline(always)]
	pub fn truth(&mut self, v: bool) {
		let o = self.b[self.n];
		self.same &= if self.lenient { (o != 0) == v } else { o == v as u8 };
		self.n += 1;
	}

	#[inline(always)]
	pub fn u8(&mut self, v: u8) {
		self.same &= self.b[self.n] == v;
		self.n += 1;
	}

	#[inline(always)]
	pub fn le(&mut self, v: u128, octets: usize) {
		macro_rules! unrolled {
			($($i:literal)*) => { $(if $i < octets { self.u8((v >> (8 * $i)) as u8); })* };
		}

		unrolled!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
	}
}

/// A type with arbitrary values, a reference encoding and an equality.
pub trait Ty: Sized {
	/// An arbitrary encodable value.
	fn arb() -> Self;

	/// Compares with the documented encoding.
	fn wire(&self, w: &mut W);

	/// Equality (bitwise for floats).
	fn same(&self, other: &Self) -> bool;

	/// Arbitrary octets to decode, within the bounds of the type.
	fn raw() -> [u8; CAP] {
		any()
	}

	/// Whether the octets that a value is decoded from are in normal form.
	fn normal(_raw: &[u8; CAP]) -> bool {
		true
	}
}

macro_rules! ints {
	($($t:ty as $u:ty),*) => { $(
		impl Ty for $t {
			#[inline(always)]
			fn arb() -> Self { any() }
			#[inline(always)]
			fn wire(&self, w: &mut W) { w.le(*self as $u as u128, size_of::<$t>()) }
			#[inline(always)]
			fn same(&self, o: &Self) -> bool { *self == *o }
		}
	)* };
}

ints!(u8 as u8, u16 as u16, u32 as u32, u64 as u64, u128 as u128, i8 as u8, i16 as u16, i32 as u32, i64 as u64, i128 as u128);

impl Ty for usize {
	fn arb() -> Self {
		let v: usize = any();
		assume(v <= 65535);
		v
	}
	fn wire(&self, w: &mut W) {
		w.le(*self as u128, 2)
	}
	fn same(&self, o: &Self) -> bool {
		*self == *o
	}
}

impl Ty for isize {
	fn arb() -> Self {
		let v: isize = any();
		assume(v >= -32768 && v <= 32767);
		v
	}
	fn wire(&self, w: &mut W) {
		w.le((*self & 0xFFFF) as u128, 2)
	}
	fn same(&self, o: &Self) -> bool {
		*self == *o
	}
}

impl Ty for f32 {
	fn arb() -> Self {
		f32::from_bits(any())
	}
	fn wire(&self, w: &mut W) {
		w.le(self.to_bits() as u128, 4)
	}
	fn same(&self, o: &Self) -> bool {
		self.to_bits() == o.to_bits()
	}
}

impl Ty for f64 {
	fn arb() -> Self {
		f64::from_bits(any())
	}
	fn wire(&self, w: &mut W) {
		w.le(self.to_bits() as u128, 8)
	}
	fn same(&self, o: &Self) -> bool {
		self.to_bits() == o.to_bits()
	}
}

impl Ty for bool {
	fn arb() -> Self {
		any()
	}
	fn wire(&self, w: &mut W) {
		w.truth(*self)
	}
	fn same(&self, o: &Self) -> bool {
		*self == *o
	}
}

impl Ty for char {
	fn arb() -> Self {
		any()
	}
	fn wire(&self, w: &mut W) {
		w.le(*self as u32 as u128, 4)
	}
	fn same(&self, o: &Self) -> bool {
		*self == *o
	}
}

macro_rules! nonzero {
	($($t:ty),*) => { $(
		impl Ty for NonZero<$t> {
			fn arb() -> Self {
				let v = <$t as Ty>::arb();
				assume(v != 0);
				NonZero::new(v).unwrap()
			}
			fn wire(&self, w: &mut W) { self.get().wire(w) }
			fn same(&self, o: &Self) -> bool { self.get() == o.get() }
		}
	)* };
}

nonzero!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

macro_rules! atomics {
	($($a:ty: $t:ty),*) => { $(
		impl Ty for $a {
			fn arb() -> Self { <$a>::new(<$t as Ty>::arb()) }
			fn wire(&self, w: &mut W) { self.load(Ordering::SeqCst).wire(w) }
			fn same(&self, o: &Self) -> bool { self.load(Ordering::SeqCst) == o.load(Ordering::SeqCst) }
		}
	)* };
}

atomics!(AtomicBool: bool, AtomicU8: u8, AtomicU16: u16, AtomicU32: u32, AtomicU64: u64, AtomicUsize: usize,
	AtomicI8: i8, AtomicI16: i16, AtomicI32: i32, AtomicI64: i64, AtomicIsize: isize);

impl<T: Ty> Ty for Wrapping<T> {
	fn arb() -> Self {
		Wrapping(T::arb())
	}
	fn wire(&self, w: &mut W) {
		self.0.wire(w)
	}
	fn same(&self, o: &Self) -> bool {
		self.0.same(&o.0)
	}
}

impl<T: Ty> Ty for Saturating<T> {
	fn arb() -> Self {
		Saturating(T::arb())
	}
	fn wire(&self, w: &mut W) {
		self.0.wire(w)
	}
	fn same(&self, o: &Self) -> bool {
		self.0.same(&o.0)
	}
}

impl Ty for () {
	fn arb() -> Self {}
	fn wire(&self, _: &mut W) {}
	fn same(&self, _: &Self) -> bool {
		true
	}
}

impl<T> Ty for PhantomData<T> {
	fn arb() -> Self {
		PhantomData
	}
	fn wire(&self, _: &mut W) {}
	fn same(&self, _: &Self) -> bool {
		true
	}
}

impl Ty for PhantomPinned {
	fn arb() -> Self {
		PhantomPinned
	}
	fn wire(&self, _: &mut W) {}
	fn same(&self, _: &Self) -> bool {
		true
	}
}

impl Ty for RangeFull {
	fn arb() -> Self {
		..
	}
	fn wire(&self, _: &mut W) {}
	fn same(&self, _: &Self) -> bool {
		true
	}
}

macro_rules! tuples {
	($($n:ident)+) => {
		#[allow(non_snake_case)]
		impl<$($n: Ty),+> Ty for ($($n,)+) {
			fn arb() -> Self { ($($n::arb(),)+) }
			fn wire(&self, w: &mut W) {
				let ($($n,)+) = self;
				$($n.wire(w);)+
			}
			fn same(&self, o: &Self) -> bool {
				tuples!(@cmp self, o, $($n)+)
			}
		}
	};
	(@cmp $s:ident, $o:ident, A) => { $s.0.same(&$o.0) };
	(@cmp $s:ident, $o:ident, A B) => { tuples!(@cmp $s, $o, A) && $s.1.same(&$o.1) };
	(@cmp $s:ident, $o:ident, A B C) => { tuples!(@cmp $s, $o, A B) && $s.2.same(&$o.2) };
	(@cmp $s:ident, $o:ident, A B C D) => { tuples!(@cmp $s, $o, A B C) && $s.3.same(&$o.3) };
	(@cmp $s:ident, $o:ident, A B C D E) => { tuples!(@cmp $s, $o, A B C D) && $s.4.same(&$o.4) };
	(@cmp $s:ident, $o:ident, A B C D E F) => { tuples!(@cmp $s, $o, A B C D E) && $s.5.same(&$o.5) };
	(@cmp $s:ident, $o:ident, A B C D E F G) => { tuples!(@cmp $s, $o, A B C D E F) && $s.6.same(&$o.6) };
	(@cmp $s:ident, $o:ident, A B C D E F G H) => { tuples!(@cmp $s, $o, A B C D E F G) && $s.7.same(&$o.7) };
	(@cmp $s:ident, $o:ident, A B C D E F G H I) => { tuples!(@cmp $s, $o, A B C D E F G H) && $s.8.same(&$o.8) };
	(@cmp $s:ident, $o:ident, A B C D E F G H I J) => { tuples!(@cmp $s, $o, A B C D E F G H I) && $s.9.same(&$o.9) };
	(@cmp $s:ident, $o:ident, A B C D E F G H I J K) => { tuples!(@cmp $s, $o, A B C D E F G H I J) && $s.10.same(&$o.10) };
	(@cmp $s:ident, $o:ident, A B C D E F G H I J K L) => { tuples!(@cmp $s, $o, A B C D E F G H I J K) && $s.11.same(&$o.11) };
}

tuples!(A);
tuples!(A B);
tuples!(A B C);
tuples!(A B C D);
tuples!(A B C D E);
tuples!(A B C D E F);
tuples!(A B C D E F G);
tuples!(A B C D E F G H);
tuples!(A B C D E F G H I);
tuples!(A B C D E F G H I J);
tuples!(A B C D E F G H I J K);
tuples!(A B C D E F G H I J K L);

macro_rules! arrays {
	($($n:literal: $($i:literal)*;)*) => { $(
		impl<T: Ty> Ty for [T; $n] {
			fn arb() -> Self { [$({ let _ = $i; T::arb() }),*] }
			fn wire(&self, _w: &mut W) { $(self[$i].wire(_w);)* }
			fn same(&self, _o: &Self) -> bool { true $(&& self[$i].same(&_o[$i]))* }
		}
	)* };
}

arrays! {
	0: ;
	1: 0;
	2: 0 1;
	3: 0 1 2;
	4: 0 1 2 3;
	17: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16;
}

impl<T: Ty> Ty for Option<T> {
	fn arb() -> Self {
		if any() {
			Some(T::arb())
		} else {
			None
		}
	}
	fn wire(&self, w: &mut W) {
		match self {
			None => w.truth(false),
			Some(v) => {
				w.truth(true);
				v.wire(w)
			}
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(None, None) => true,
			(Some(a), Some(b)) => a.same(b),
			_ => false,
		}
	}
}

impl<T: Ty, E: Ty> Ty for Result<T, E> {
	fn arb() -> Self {
		if any() {
			Ok(T::arb())
		} else {
			Err(E::arb())
		}
	}
	fn wire(&self, w: &mut W) {
		match self {
			Ok(v) => {
				w.truth(false);
				v.wire(w)
			}
			Err(v) => {
				w.truth(true);
				v.wire(w)
			}
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(Ok(a), Ok(b)) => a.same(b),
			(Err(a), Err(b)) => a.same(b),
			_ => false,
		}
	}
}

impl<T: Ty> Ty for Bound<T> {
	fn arb() -> Self {
		let k: u8 = any();
		assume(k < 3);
		match k {
			0 => Bound::Included(T::arb()),
			1 => Bound::Excluded(T::arb()),
			_ => Bound::Unbounded,
		}
	}
	fn wire(&self, w: &mut W) {
		match self {
			Bound::Included(v) => {
				w.u8(0);
				v.wire(w)
			}
			Bound::Excluded(v) => {
				w.u8(1);
				v.wire(w)
			}
			Bound::Unbounded => w.u8(2),
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(Bound::Included(a), Bound::Included(b)) => a.same(b),
			(Bound::Excluded(a), Bound::Excluded(b)) => a.same(b),
			(Bound::Unbounded, Bound::Unbounded) => true,
			_ => false,
		}
	}
}

impl<T: Ty> Ty for Range<T> {
	fn arb() -> Self {
		T::arb()..T::arb()
	}
	fn wire(&self, w: &mut W) {
		self.start.wire(w);
		self.end.wire(w)
	}
	fn same(&self, o: &Self) -> bool {
		self.start.same(&o.start) && self.end.same(&o.end)
	}
}

impl<T: Ty> Ty for RangeInclusive<T> {
	fn arb() -> Self {
		T::arb()..=T::arb()
	}
	fn wire(&self, w: &mut W) {
		self.start().wire(w);
		self.end().wire(w)
	}
	fn same(&self, o: &Self) -> bool {
		self.start().same(o.start()) && self.end().same(o.end())
	}
}

impl<T: Ty> Ty for RangeFrom<T> {
	fn arb() -> Self {
		T::arb()..
	}
	fn wire(&self, w: &mut W) {
		self.start.wire(w)
	}
	fn same(&self, o: &Self) -> bool {
		self.start.same(&o.start)
	}
}

impl<T: Ty> Ty for RangeTo<T> {
	fn arb() -> Self {
		..T::arb()
	}
	fn wire(&self, w: &mut W) {
		self.end.wire(w)
	}
	fn same(&self, o: &Self) -> bool {
		self.end.same(&o.end)
	}
}

impl<T: Ty> Ty for RangeToInclusive<T> {
	fn arb() -> Self {
		..=T::arb()
	}
	fn wire(&self, w: &mut W) {
		self.end.wire(w)
	}
	fn same(&self, o: &Self) -> bool {
		self.end.same(&o.end)
	}
}

/// Whether the nanoseconds carry beyond the largest number of seconds.
pub fn duration_overflows(raw: &[u8; CAP]) -> bool {
	let secs = u64::from_le_bytes([raw[0], raw[1], raw[2], raw[3], raw[4], raw[5], raw[6], raw[7]]);
	let nanos = u32::from_le_bytes([raw[8], raw[9], raw[10], raw[11]]);
	secs.checked_add((nanos / 1_000_000_000) as u64).is_none()
}

impl Ty for Duration {
	fn arb() -> Self {
		let nanos: u32 = any();
		assume(nanos < 1_000_000_000);
		Duration::new(any(), nanos)
	}
	fn wire(&self, w: &mut W) {
		w.le(self.as_secs() as u128, 8);
		w.le(self.subsec_nanos() as u128, 4)
	}
	fn same(&self, o: &Self) -> bool {
		self.as_secs() == o.as_secs() && self.subsec_nanos() == o.subsec_nanos()
	}
	fn raw() -> [u8; CAP] {
		// Durations whose nanoseconds carry beyond the largest number of
		// seconds panic; that is the known finding of C07.
		let raw: [u8; CAP] = any();
		assume(!duration_overflows(&raw));
		raw
	}
	fn normal(raw: &[u8; CAP]) -> bool {
		u32::from_le_bytes([raw[8], raw[9], raw[10], raw[11]]) < 1_000_000_000
	}
}

/// The whole-second system time `secs` seconds after (before) the UNIX epoch.
pub fn system_time(secs: i64) -> Option<SystemTime> {
	if secs >= 0 {
		UNIX_EPOCH.checked_add(Duration::from_secs(secs as u64))
	} else {
		UNIX_EPOCH.checked_sub(Duration::from_secs(secs.unsigned_abs()))
	}
}

impl Ty for SystemTime {
	fn arb() -> Self {
		let t = system_time(any());
		assume(t.is_some());
		t.unwrap()
	}
	fn wire(&self, w: &mut W) {
		let secs = match self.duration_since(UNIX_EPOCH) {
			Ok(d) => d.as_secs() as i128,
			Err(e) => -(e.duration().as_secs() as i128),
		};
		w.le(secs as i64 as u64 as u128, 8)
	}
	fn same(&self, o: &Self) -> bool {
		self == o
	}
}

impl Ty for Ipv4Addr {
	fn arb() -> Self {
		let o: [u8; 4] = any();
		Ipv4Addr::new(o[0], o[1], o[2], o[3])
	}
	fn wire(&self, w: &mut W) {
		let o = self.octets();
		let v = (o[0] as u128) << 24 | (o[1] as u128) << 16 | (o[2] as u128) << 8 | o[3] as u128;
		w.le(v, 4)
	}
	fn same(&self, o: &Self) -> bool {
		u32::from_ne_bytes(self.octets()) == u32::from_ne_bytes(o.octets())
	}
}

impl Ty for Ipv6Addr {
	fn arb() -> Self {
		Ipv6Addr::from(any::<u128>())
	}
	fn wire(&self, w: &mut W) {
		w.le(u128::from(*self), 16)
	}
	fn same(&self, o: &Self) -> bool {
		u128::from(*self) == u128::from(*o)
	}
}

impl Ty for IpAddr {
	fn arb() -> Self {
		if any() {
			IpAddr::V4(Ty::arb())
		} else {
			IpAddr::V6(Ty::arb())
		}
	}
	fn wire(&self, w: &mut W) {
		match self {
			IpAddr::V4(a) => {
				w.u8(4);
				a.wire(w)
			}
			IpAddr::V6(a) => {
				w.u8(6);
				a.wire(w)
			}
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(IpAddr::V4(a), IpAddr::V4(b)) => a.same(b),
			(IpAddr::V6(a), IpAddr::V6(b)) => a.same(b),
			_ => false,
		}
	}
}

impl Ty for SocketAddrV4 {
	fn arb() -> Self {
		SocketAddrV4::new(Ty::arb(), any())
	}
	fn wire(&self, w: &mut W) {
		self.ip().wire(w);
		w.le(self.port() as u128, 2)
	}
	fn same(&self, o: &Self) -> bool {
		self.ip().same(o.ip()) && self.port() == o.port()
	}
}

impl Ty for SocketAddrV6 {
	fn arb() -> Self {
		SocketAddrV6::new(Ty::arb(), any(), any(), any())
	}
	fn wire(&self, w: &mut W) {
		self.ip().wire(w);
		w.le(self.port() as u128, 2);
		w.le(self.flowinfo() as u128, 4);
		w.le(self.scope_id() as u128, 4)
	}
	fn same(&self, o: &Self) -> bool {
		self.ip().same(o.ip()) && self.port() == o.port() && self.flowinfo() == o.flowinfo() && self.scope_id() == o.scope_id()
	}
}

impl Ty for SocketAddr {
	fn arb() -> Self {
		if any() {
			SocketAddr::V4(Ty::arb())
		} else {
			SocketAddr::V6(Ty::arb())
		}
	}
	fn wire(&self, w: &mut W) {
		match self {
			SocketAddr::V4(a) => {
				w.u8(4);
				a.wire(w)
			}
			SocketAddr::V6(a) => {
				w.u8(6);
				a.wire(w)
			}
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(SocketAddr::V4(a), SocketAddr::V4(b)) => a.same(b),
			(SocketAddr::V6(a), SocketAddr::V6(b)) => a.same(b),
			_ => false,
		}
	}
}
