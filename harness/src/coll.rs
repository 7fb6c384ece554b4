//! Collections, strings and wrappers with bounded arbitrary values.

use crate::sym::{any, assume};
use crate::utf8::utf8_valid_up_to;
use crate::wire::{Ty, CAP, W};
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::LinkedList;
use std::ffi::CString;
use std::mem::MaybeUninit;
use std::rc::Rc;
use std::sync::{Arc, Mutex, RwLock};

/// Largest number of elements of the growable collections.
pub const LEN: usize = if cfg!(feature = "thorough") { 4 } else { 3 };

/// Repeats `$body` for `$i` in 0..LEN, without a loop.
macro_rules! each {
	($i:ident, $body:expr) => {{
		{ let $i = 0usize; if $i < LEN { $body } }
		{ let $i = 1usize; if $i < LEN { $body } }
		{ let $i = 2usize; if $i < LEN { $body } }
		{ let $i = 3usize; if $i < LEN { $body } }
	}};
}

fn arb_len(max: usize) -> usize {
	let n: usize = any();
	assume(n <= max);
	n
}

/// Octets that announce at most `max` elements.
fn raw_len(max: usize) -> [u8; CAP] {
	let mut raw: [u8; CAP] = any();
	assume(raw[0] as usize <= max);
	raw[1] = 0;
	raw
}

impl<T: Ty> Ty for Vec<T> {
	fn arb() -> Self {
		let n = arb_len(LEN);
		let mut v = Vec::with_capacity(LEN);
		each!(i, if i < n { v.push(T::arb()) });
		v
	}
	fn wire(&self, w: &mut W) {
		w.le(self.len() as u128, 2);
		each!(i, if i < self.len() { self[i].wire(w) });
	}
	fn same(&self, o: &Self) -> bool {
		let mut same = self.len() == o.len();
		each!(i, if same && i < self.len() { same = self[i].same(&o[i]) });
		same
	}
	fn raw() -> [u8; CAP] {
		raw_len(LEN)
	}
}

impl<T: Ty + Clone> Ty for Cow<'static, T> {
	fn arb() -> Self {
		Cow::Owned(Ty::arb())
	}
	fn wire(&self, w: &mut W) {
		T::wire(self, w)
	}
	fn same(&self, o: &Self) -> bool {
		T::same(self, o)
	}
	fn raw() -> [u8; CAP] {
		T::raw()
	}
}

impl<T: Ty> Ty for LinkedList<T> {
	fn arb() -> Self {
		let n = arb_len(LEN);
		let mut v = LinkedList::new();
		each!(i, if i < n { v.push_back(T::arb()) });
		v
	}
	fn wire(&self, w: &mut W) {
		w.le(self.len() as u128, 2);
		let mut it = self.iter();
		each!(_i, if let Some(v) = it.next() { v.wire(w) });
	}
	fn same(&self, o: &Self) -> bool {
		let mut same = self.len() == o.len();
		let (mut a, mut b) = (self.iter(), o.iter());
		each!(_i, if let (Some(a), Some(b)) = (a.next(), b.next()) { same &= a.same(b) });
		same
	}
	fn raw() -> [u8; CAP] {
		raw_len(LEN)
	}
}

impl<T: Ty, const N: usize> Ty for SizedSlice<T, N>
where
	[T; N]: Ty,
{
	fn arb() -> Self {
		let mut s = SizedSlice::from(<[T; N]>::arb());
		// SAFETY: All `N` elements are initialised.
		unsafe { s.set_len(arb_len(N)) };
		s
	}
	fn wire(&self, w: &mut W) {
		w.le(self.len() as u128, 2);
		each!(i, if i < self.len() { self[i].wire(w) });
	}
	fn same(&self, o: &Self) -> bool {
		let mut same = self.len() == o.len();
		each!(i, if same && i < self.len() { same = self[i].same(&o[i]) });
		same
	}
	fn raw() -> [u8; CAP] {
		raw_len(N)
	}
}

/// Octets that announce `n` more.
fn raw_exact(n: usize) -> [u8; CAP] {
	let mut raw: [u8; CAP] = any();
	raw[0] = n as u8;
	raw[1] = 0;
	raw
}

/// `N` arbitrary octets of valid UTF-8.
pub fn arb_utf8<const N: usize>() -> [u8; N] {
	let b: [u8; N] = [(); N].map(|()| any());
	assume(utf8_valid_up_to(&b) == N);
	b
}

/// Repeats `$body` for `$i` in 0..`$n`, `$n` at most 18, without a loop.
macro_rules! octets {
	($i:ident, $n:expr, $body:expr) => {
		octets!([0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17] $i, $n, $body)
	};
	([$($k:literal)*] $i:ident, $n:expr, $body:expr) => {{
		$({ let $i = $k as usize; if $i < $n { $body } })*
	}};
}

/// A text of `N` octets, as one of the string types.
macro_rules! text {
	($name:ident, $inner:ty, [$($g:tt)*], [$($a:tt)*], $from:expr, $at:expr) => {
		pub struct $name<$($g)*>(pub $inner);

		impl<$($g)*> Encode for $name<$($a)*> {
			type Error = <$inner as Encode>::Error;
			fn encode(&self, o: &mut Output) -> Result<(), Self::Error> {
				self.0.encode(o)
			}
		}

		impl<$($g)*> Decode for $name<$($a)*> {
			type Error = <$inner as Decode>::Error;
			fn decode(i: &mut Input) -> Result<Self, Self::Error> {
				Ok(Self(<$inner as Decode>::decode(i)?))
			}
		}

		impl<$($g)*> Ty for $name<$($a)*> {
			fn arb() -> Self {
				Self($from())
			}
			fn wire(&self, w: &mut W) {
				let b: &[u8] = $at(&self.0);
				w.le(b.len() as u128, 2);
				octets!(i, N, if i < b.len() { w.u8(b[i]) });
			}
			fn same(&self, o: &Self) -> bool {
				let (a, b): (&[u8], &[u8]) = ($at(&self.0), $at(&o.0));
				let mut same = a.len() == b.len();
				octets!(i, N, if same && i < a.len() { same = a[i] == b[i] });
				same
			}
			fn raw() -> [u8; CAP] {
				raw_exact(N)
			}
		}
	};
}

fn string<const N: usize>() -> String {
	// SAFETY: The octets are valid UTF-8.
	unsafe { String::from_utf8_unchecked(arb_utf8::<N>().to_vec()) }
}

fn c_string<const N: usize>() -> CString {
	let b: [NonNul; N] = [(); N].map(|()| NonNul::arb());
	// SAFETY: No octet is null.
	unsafe { CString::from_vec_unchecked(b.map(|b| b.0).to_vec()) }
}

struct NonNul(u8);

impl NonNul {
	fn arb() -> Self {
		let b: u8 = any();
		assume(b != 0);
		Self(b)
	}
}

fn sized_str<const N: usize, const C: usize>() -> SizedStr<C> {
	// SAFETY: The octets are valid UTF-8.
	unsafe { SizedStr::from_utf8_unchecked(&arb_utf8::<N>()) }
}

text!(Text, String, [const N: usize], [N], string::<N>, String::as_bytes);
text!(CText, CString, [const N: usize], [N], c_string::<N>, CString::as_bytes);
text!(SText, SizedStr<C>, [const N: usize, const C: usize], [N, C], sized_str::<N, C>, SizedStr::<C>::as_bytes);

fn octets<const N: usize>() -> [u8; N] {
	[(); N].map(|()| any())
}

text!(LVec, Vec<u8>, [const N: usize], [N], || octets::<N>().to_vec(), Vec::as_slice);
text!(LSlice, SizedSlice<u8, N>, [const N: usize], [N], || SizedSlice::from(octets::<N>()), SizedSlice::<u8, N>::as_slice);

/// A list of `N` octets.
pub struct LList<const N: usize>(pub LinkedList<u8>);

impl<const N: usize> Encode for LList<N> {
	type Error = <LinkedList<u8> as Encode>::Error;
	fn encode(&self, o: &mut Output) -> Result<(), Self::Error> {
		self.0.encode(o)
	}
}

impl<const N: usize> Decode for LList<N> {
	type Error = <LinkedList<u8> as Decode>::Error;
	fn decode(i: &mut Input) -> Result<Self, Self::Error> {
		Ok(Self(Decode::decode(i)?))
	}
}

impl<const N: usize> Ty for LList<N> {
	fn arb() -> Self {
		let mut v = LinkedList::new();
		octets!(i, N, { let _ = i; v.push_back(any()) });
		Self(v)
	}
	fn wire(&self, w: &mut W) {
		w.le(self.0.len() as u128, 2);
		let mut it = self.0.iter();
		octets!(i, N, { let _ = i; if let Some(v) = it.next() { w.u8(*v) } });
	}
	fn same(&self, o: &Self) -> bool {
		let mut same = self.0.len() == o.0.len();
		let (mut a, mut b) = (self.0.iter(), o.0.iter());
		octets!(i, N, { let _ = i; if let (Some(a), Some(b)) = (a.next(), b.next()) { same &= a == b } });
		same
	}
	fn raw() -> [u8; CAP] {
		raw_exact(N)
	}
}

impl<const N: usize, const C: usize> oct::encode::SizedEncode for SText<N, C> {
	const MAX_ENCODED_SIZE: usize = <SizedStr<C> as oct::encode::SizedEncode>::MAX_ENCODED_SIZE;
}

macro_rules! wrappers {
	($($w:ident: |$s:ident| $get:expr;)*) => { $(
		impl<T: Ty + Copy> Ty for $w<T> {
			fn arb() -> Self {
				$w::new(T::arb())
			}
			fn wire(&self, w: &mut W) {
				let $s = self;
				let v: T = $get;
				v.wire(w)
			}
			fn same(&self, o: &Self) -> bool {
				let $s = self;
				let a: T = $get;
				let $s = o;
				let b: T = $get;
				a.same(&b)
			}
			fn raw() -> [u8; CAP] {
				T::raw()
			}
		}
	)* };
}

wrappers! {
	Box: |s| **s;
	Rc: |s| **s;
	Arc: |s| **s;
	Cell: |s| s.get();
	RefCell: |s| *s.borrow();
	Mutex: |s| match s.lock() { Ok(v) => *v, Err(_) => panic!() };
	RwLock: |s| match s.read() { Ok(v) => *v, Err(_) => panic!() };
}
