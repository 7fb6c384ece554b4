//! C12: a size-limited slice behaves as a bounded vector of its elements.
use crate::groups::prelude::*;
use oct::error::LengthError;
use std::borrow::{Borrow, BorrowMut};
use std::mem::MaybeUninit;

/// Capacity.
const N: usize = if cfg!(feature = "thorough") { 6 } else { 4 };

fn up_to(max: usize) -> usize {
	let n: usize = any();
	assume(n <= max);
	n
}

/// The length of `s` and everything derived from it.
fn sized<T, const N: usize>(s: &SizedSlice<T, N>, len: usize) {
	check!(s.capacity() == N, "the capacity is wrong");
	check!(s.len() == len, "the length is wrong");
	check!(len <= N, "the length exceeds the capacity");
	check!(s.is_empty() == (len == 0), "is_empty is wrong");
	check!(s.is_full() == (len == N), "is_full is wrong");
	check!(s.as_slice().len() == len, "as_slice has another length");
}

/// `s` holds exactly the first `len` of `want`.
fn holds<const N: usize, const M: usize>(s: &SizedSlice<u16, N>, want: &[u16; M], len: usize) {
	sized(s, len);
	let at = up_to(M - 1);
	check!(at >= len || s.as_slice()[at] == want[at], "other elements are held");
}

/// A slice of any length with any elements; octets beyond the length are arbitrary.
fn slice() -> (SizedSlice<u16, N>, [u16; N], usize) {
	let raw: [u16; N] = any();
	let len = up_to(N);
	let s = unsafe { SizedSlice::from_raw_parts(raw.map(MaybeUninit::new), len) };
	sized(&s, len);
	(s, raw, len)
}

/// Yields `data`, and counts how often it is asked.
struct Counting<'a, const M: usize> {
	data: [u16; M],
	left: usize,
	asked: &'a mut usize,
}

impl<const M: usize> Iterator for Counting<'_, M> {
	type Item = u16;
	fn next(&mut self) -> Option<u16> {
		let at = *self.asked;
		*self.asked += 1;
		if at < self.left { Some(self.data[at]) } else { None }
	}
}

/// Yields elements forever.
struct Endless(usize);

impl Iterator for Endless {
	type Item = u16;
	fn next(&mut self) -> Option<u16> {
		self.0 += 1;
		check!(self.0 <= N, "elements beyond the capacity are taken");
		Some(self.0 as u16)
	}
}

fn from_array<const N: usize>() {
	let raw: [u16; N] = std::array::from_fn(|_| any());
	let s = SizedSlice::from(raw);
	sized(&s, N);
	let at = up_to(N);
	check!(at >= N || s.as_slice()[at] == raw[at], "other elements are held");
}

/// A slice of capacity `C` that holds `data`.
fn full<const L: usize, const C: usize>(data: &[u16; L]) -> SizedSlice<u16, C> {
	let mut raw = [const { MaybeUninit::<u16>::uninit() }; C];
	let mut i = 0;
	while i < L {
		raw[i].write(data[i]);
		i += 1;
	}
	unsafe { SizedSlice::from_raw_parts(raw, L) }
}

/// `s` holds exactly `want`.
fn exactly<const L: usize>(s: &[u16], want: &[u16; L]) {
	check!(s.len() == L, "the length is wrong");
	let mut i = 0;
	while i < L {
		check!(s[i] == want[i], "other elements are held");
		i += 1;
	}
}

/// Constructions from `L` elements.
fn long_new<const L: usize, const C: usize>() {
	let data: [u16; L] = any();
	let Ok(s) = SizedSlice::<u16, C>::new(&data) else { panic!("a slice within the capacity is refused") };
	sized(&s, L);
	exactly(&s, &data);
	let Ok(s) = SizedSlice::<u16, C>::try_from(&data[..]) else { panic!("a slice within the capacity is refused") };
	sized(&s, L);
	exactly(&s, &data);
	let mut asked = 0;
	let s: SizedSlice<u16, C> = Counting { data, left: L, asked: &mut asked }.collect();
	sized(&s, L);
	exactly(&s, &data);
	let mut s = SizedSlice::<u16, C>::default();
	s.copy_from_slice(&data);
	sized(&s, L);
	exactly(&s, &data);
	let s = SizedSlice::from(data);
	sized(&s, L);
	exactly(&s, &data);
}

/// Views of and conversions from `L` elements.
fn long_views<const L: usize, const C: usize>() {
	let data: [u16; L] = any();
	let mut s = full::<L, C>(&data);
	sized(&s, L);
	let c = s.clone();
	sized(&c, L);
	exactly(&c, &data);
	let e = s.each_ref();
	sized(&e, L);
	let mut i = 0;
	while i < L { check!(std::ptr::eq(e[i], &s[i]), "a reference is to another element"); i += 1; }
	let mut e = s.each_mut();
	sized(&e, L);
	let mut i = 0;
	while i < L { check!(*e[i] == data[i], "a reference is to another element"); *e[i] ^= 1; i += 1; }
	let mut i = 0;
	for v in &s { check!(*v == data[i] ^ 1, "an iterator yields other elements"); i += 1; }
	check!(i == L, "an iterator has another length");
	for v in &mut s { *v ^= 1; }
	exactly(&s, &data);
	exactly(&c, &data);
	let (buf, l) = s.into_raw_parts();
	check!(l == L, "raw parts have another length");
	exactly(&unsafe { SizedSlice::from_raw_parts(buf, l) }, &data);
}

/// Conversions from `L` elements.
fn long_owned<const L: usize, const C: usize>() {
	let data: [u16; L] = any();
	let b = full::<L, C>(&data).into_boxed_slice();
	exactly(&b, &data);
	drop(b);
	let mut v = full::<L, C>(&data).into_vec();
	exactly(&v, &data);
	v.push(7);
	exactly(&v[..L], &data);
	drop(v);
	let mut it = full::<L, C>(&data).into_iter();
	let mut i = 0;
	while i < L {
		check!(it.next() == Some(data[i]), "an iterator yields other elements");
		i += 1;
	}
	check!(it.next().is_none(), "an iterator yields other elements");
}

harnesses! {
	/// new and try_from of slices of up to N + 2 elements
	fn new(9, 9) {
		let data: [u16; N + 2] = any();
		let (want, by_new): (usize, bool) = (up_to(N + 2), any());
		let mut len = 0;
		// Each length is concrete where it is used.
		while len <= N + 2 {
			if len == want {
				let r = if by_new { SizedSlice::<u16, N>::new(&data[..len]) } else { SizedSlice::<u16, N>::try_from(&data[..len]) };
				match r {
					Ok(s) => {
						check!(len <= N, "more elements than the capacity are accepted");
						holds(&s, &data, len);
						cover!(len == N, "full");
						cover!(len == 0, "empty");
					}
					Err(LengthError { capacity, len: l }) => {
						check!(len > N, "a slice within the capacity is refused");
						check!(capacity == N && l == len, "the error is wrong");
						cover!(len == N + 1, "one too many");
					}
				}
			}
			len += 1;
		}
	}

	/// new of slices of any length whatsoever, without size
	fn new_unit(6, 8) {
		let len: usize = any();
		let data: &[()] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), len) };
		match SizedSlice::<(), N>::new(data) {
			Ok(s) => {
				check!(len <= N, "more elements than the capacity are accepted");
				sized(&s, len);
			}
			Err(LengthError { capacity, len: l }) => {
				check!(len > N && capacity == N && l == len, "the error is wrong");
				cover!(len == usize::MAX, "huge");
				cover!(len == 1 << 32, "far beyond");
			}
		}
	}

	/// new with capacity 0 and 1
	fn new_small(4, 4) {
		let data: [u16; 3] = any();
		let len = up_to(3);
		let r = SizedSlice::<u16, 0>::new(&data[..len]);
		check!(is_ok(&r) == (len == 0), "a slice is accepted or refused wrongly");
		let r = SizedSlice::<u16, 1>::new(&data[..len]);
		check!(is_ok(&r) == (len <= 1), "a slice is accepted or refused wrongly");
		if let Ok(s) = r { holds(&s, &data, len); cover!(len == 1, "one"); }
	}

	/// from arrays of different sizes
	fn array(8, 8) {
		from_array::<0>();
		from_array::<1>();
		from_array::<3>();
		from_array::<N>();
	}

	/// collecting an iterator takes its first N elements, and asks for no more
	fn collect(6, 8) {
		let data: [u16; N + 2] = any();
		let left = up_to(N + 2);
		let mut asked = 0;
		let s: SizedSlice<u16, N> = Counting { data, left, asked: &mut asked }.collect();
		let len = if left < N { left } else { N };
		holds(&s, &data, len);
		check!(asked <= len + (left < N) as usize && asked >= len, "an element beyond the capacity is taken");
		cover!(left == N, "exactly full");
		cover!(left == N + 2, "cut");
	}

	/// collecting an endless iterator
	fn collect_endless(6, 8) {
		let s: SizedSlice<u16, N> = Endless(0).collect();
		sized(&s, N);
		let at = up_to(N - 1);
		check!(s.as_slice()[at] == at as u16 + 1, "other elements are held");
	}

	/// collecting into no capacity takes nothing
	fn collect_none(3, 3) {
		let mut asked = 0;
		let s: SizedSlice<u16, 0> = Counting::<1> { data: any(), left: 1, asked: &mut asked }.collect();
		sized(&s, 0);
		check!(asked == 0, "an element beyond the capacity is taken");
	}

	/// the default is empty
	fn default(3, 3) {
		let s = SizedSlice::<u16, N>::default();
		sized(&s, 0);
		let s = SizedSlice::<u64, 0>::default();
		sized(&s, 0);
	}

	/// setting the length
	fn set_len(4, 4) {
		let (mut s, raw, _) = slice();
		let len = up_to(N);
		unsafe { s.set_len(len) };
		holds(&s, &raw, len);
		cover!(len == N, "full");
	}

	/// all shared views show the same elements
	fn views(4, 4) {
		let (s, raw, len) = slice();
		let at = up_to(N - 1);
		macro_rules! same {
			($v:expr) => {
				let v: &[u16] = $v;
				check!(v.len() == len && v.as_ptr() == s.as_ptr(), "a view shows other elements");
				check!(at >= len || v[at] == raw[at], "a view shows other elements");
			};
		}
		same!(s.as_slice());
		same!(&s);
		same!(s.as_ref());
		same!(Borrow::<[u16]>::borrow(&s));
		same!(&s[..]);
		same!(s.iter().as_slice());
		same!((&s).into_iter().as_slice());
		check!(at >= len || s[at] == raw[at], "indexing shows other elements");
		check!(s.get(at).copied() == if at < len { Some(raw[at]) } else { None }, "an element beyond the length is shown");
		let (a, b) = (up_to(N), up_to(N));
		if a <= b && b <= len {
			let part = &s[a..b];
			check!(part.len() == b - a, "an indexed part has another length");
			check!(at >= part.len() || part[at] == raw[a + at], "an indexed part is elsewhere");
			cover!(b - a == 2 && a == 1, "part");
		}
		cover!(len == N, "full");
	}

	/// indexing beyond the length panics
	fn index_pn(4, 4) {
		let (s, _, len) = slice();
		let at: usize = any();
		assume(at >= len);
		cover!(at == len && len < N, "beyond the length, within the capacity");
		must_panic!(|| { let _ = s[at]; }, "an element beyond the length is shown");
	}

	/// writing by index beyond the length panics
	fn index_mut_pn(4, 4) {
		let (mut s, _, len) = slice();
		let at: usize = any();
		assume(at >= len);
		cover!(at == len && len < N, "beyond the length, within the capacity");
		must_panic!(|| s[at] = 0, "an element beyond the length is written");
	}

	/// indexing a range beyond the length panics
	fn index_range_pn(4, 4) {
		let (s, _, len) = slice();
		let (a, b): (usize, usize) = (any(), any());
		assume(b > len || a > b);
		cover!(b == len + 1 && len < N, "beyond the length, within the capacity");
		must_panic!(|| { let _ = &s[a..b]; }, "elements beyond the length are shown");
	}

	/// writes through mutable views are seen by all others, and nothing else changes
	fn mutable(8, 8) {
		let (mut s, raw, len) = slice();
		let (at, to) = (up_to(N - 1), any::<u16>());
		assume(at < len);
		let which: u8 = any();
		match which {
			0 => s.as_mut_slice()[at] = to,
			1 => { let v: &mut [u16] = s.as_mut(); check!(v.len() == len, "a view has another length"); v[at] = to }
			2 => { let v: &mut [u16] = s.borrow_mut(); check!(v.len() == len, "a view has another length"); v[at] = to }
			3 => { let v: &mut [u16] = &mut s; check!(v.len() == len, "a view has another length"); v[at] = to }
			4 => s[at] = to,
			5 => s[at..][0] = to,
			6 => { let v = s.iter_mut().into_slice(); check!(v.len() == len, "a view has another length"); v[at] = to }
			7 => { let v = (&mut s).into_iter().into_slice(); check!(v.len() == len, "a view has another length"); v[at] = to }
			8 => { let mut e = s.each_mut(); check!(e.len() == len, "a view has another length"); *e[at] = to }
			_ => unsafe { *s.as_mut_ptr().add(at) = to },
		}
		check!(s.as_mut_slice().len() == len, "a view has another length");
		let mut want = raw;
		want[at] = to;
		holds(&s, &want, len);
		cover!(which == 8 && at == 2, "each_mut");
		cover!(which == 4, "indexed");
	}

	/// references to each element
	fn each(6, 8) {
		let (mut s, raw, len) = slice();
		let at = up_to(N - 1);
		let p = s.as_ptr();
		let e = s.each_ref();
		sized(&e, len);
		if at < len {
			check!(std::ptr::eq(e[at], unsafe { &*p.add(at) }), "a reference is to another element");
			check!(*e[at] == raw[at], "a reference is to another element");
			cover!(at == N - 1, "last");
		}
		let e = s.each_mut();
		sized(&e, len);
		check!(at >= len || *e[at] == raw[at], "a reference is to another element");
		holds(&s, &raw, len);
	}

	/// references to each element of a slice without size or capacity
	fn each_empty(3, 3) {
		let mut s = SizedSlice::<u16, 0>::default();
		sized(&s.each_ref(), 0);
		sized(&s.each_mut(), 0);
		let mut s = SizedSlice::from([(), ()]);
		sized(&s.each_ref(), 2);
		sized(&s.each_mut(), 2);
	}

	/// iterating yields the elements in order, then nothing
	fn iterate(4, 4) {
		let (mut s, raw, len) = slice();
		let which: u8 = any();
		macro_rules! run {
			($it:expr, |$v:ident| $get:expr) => {{
				let mut it = $it;
				let at = up_to(N - 1);
				check!(it.len() == len, "an iterator has another length");
				let got = it.nth(at).map(|$v| $get);
				check!(got == if at < len { Some(raw[at]) } else { None }, "an iterator yields other elements");
				check!(it.next().map(|$v| $get) == if at + 1 < len { Some(raw[at + 1]) } else { None }, "an iterator yields other elements");
			}};
		}
		match which {
			0 => run!(s.iter(), |v| *v),
			1 => run!((&s).into_iter(), |v| *v),
			2 => run!(s.iter_mut(), |v| *v),
			_ => run!((&mut s).into_iter(), |v| *v),
		}
		cover!(len == N, "full");
	}

	/// the owning iterator yields the elements in order, then nothing
	fn into_iterator(6, 8) {
		let (s, raw, len) = slice();
		let mut it = s.into_iter();
		let mut i = 0;
		while i < N {
			check!(it.len() == if i < len { len - i } else { 0 }, "an iterator has another length");
			check!(it.next() == if i < len { Some(raw[i]) } else { None }, "an iterator yields other elements");
			i += 1;
		}
		check!(it.next().is_none(), "an iterator yields other elements");
		cover!(len == N, "full");
	}

	/// copying in replaces the contents
	fn copy(4, 4) {
		let (mut s, _, _) = slice();
		let data: [u16; N] = any();
		let len = up_to(N);
		s.copy_from_slice(&data[..len]);
		holds(&s, &data, len);
		cover!(len == N, "full");
		cover!(len == 0, "empty");
	}

	/// copying in more than the capacity panics
	fn copy_pn(4, 4) {
		let (mut s, _, _) = slice();
		let data: [u16; 2 * N] = any();
		let len = up_to(2 * N);
		assume(len > N);
		cover!(len == N + 1, "one too many");
		must_panic!(|| s.copy_from_slice(&data[..len]), "more is copied than the capacity");
	}

	/// copying in any number of elements without size
	fn copy_unit_pn(6, 8) {
		let mut s = SizedSlice::<(), N>::default();
		let len: usize = any();
		assume(len > N);
		let data: &[()] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), len) };
		cover!(len == usize::MAX, "huge");
		must_panic!(|| s.copy_from_slice(data), "more is copied than the capacity");
	}

	/// a clone holds the same elements and is independent
	fn clone(6, 8) {
		let (mut s, raw, len) = slice();
		let mut c = s.clone();
		holds(&c, &raw, len);
		holds(&s, &raw, len);
		if len > 0 {
			c[0] = !raw[0];
			holds(&s, &raw, len);
			s[0] = 7;
			check!(c[0] == !raw[0], "a clone is not independent");
			cover!(len == N, "full");
		}
	}

	/// a clone of a slice without capacity or size
	fn clone_empty(4, 4) {
		sized(&SizedSlice::<u16, 0>::default().clone(), 0);
		sized(&SizedSlice::from([(), ()]).clone(), 2);
		sized(&SizedSlice::<u16, 3>::default().clone(), 0);
	}

	/// boxed slices hold the same elements
	fn boxed(6, 8) {
		let (s, raw, len) = slice();
		let b: Box<[u16]> = if any() { s.into_boxed_slice() } else { s.into() };
		check!(b.len() == len, "a boxed slice has another length");
		let at = up_to(N - 1);
		check!(at >= len || b[at] == raw[at], "a boxed slice holds other elements");
		drop(b);
		cover!(len == N, "full");
		cover!(len == 0, "empty");
	}

	/// vectors hold the same elements and can grow
	fn vec(8, 9) {
		let (s, raw, len) = slice();
		let mut v: Vec<u16> = if any() { s.into_vec() } else { s.into() };
		check!(v.len() == len, "a vector has another length");
		let at = up_to(N - 1);
		check!(at >= len || v[at] == raw[at], "a vector holds other elements");
		v.push(5);
		check!(v.len() == len + 1 && v[len] == 5, "a vector cannot grow");
		check!(at >= len || v[at] == raw[at], "a vector holds other elements");
		drop(v);
		cover!(len == N, "full");
		cover!(len == 0, "empty");
	}

	/// conversions of elements without size, and with a large alignment
	fn boxed_unit(6, 8) {
		let len = up_to(3);
		let mut s = SizedSlice::from([(), (), ()]);
		unsafe { s.set_len(len) };
		let b = s.clone().into_boxed_slice();
		check!(b.len() == len, "a boxed slice has another length");
		drop(b);
		let v = s.into_vec();
		check!(v.len() == len, "a vector has another length");
		drop(v);

		let raw: [u128; 2] = any();
		let mut s = SizedSlice::from(raw);
		let len = up_to(2);
		unsafe { s.set_len(len) };
		let v = s.into_vec();
		check!(v.len() == len, "a vector has another length");
		check!(len < 1 || v[0] == raw[0], "a vector holds other elements");
		check!(len < 2 || v[1] == raw[1], "a vector holds other elements");
		drop(v);
		cover!(len == 2, "full");
	}

	/// conversions of a slice without capacity
	fn boxed_none(4, 4) {
		let b = SizedSlice::<u32, 0>::default().into_boxed_slice();
		check!(b.is_empty(), "a boxed slice has another length");
		drop(b);
		let v = SizedSlice::<u32, 0>::default().into_vec();
		check!(v.is_empty(), "a vector has another length");
		drop(v);
	}

	/// raw parts restore the slice
	fn raw_parts(4, 4) {
		let (s, raw, len) = slice();
		let (buf, l) = s.into_raw_parts();
		check!(l == len, "raw parts have another length");
		let at = up_to(N - 1);
		check!(at >= len || unsafe { buf[at].assume_init() } == raw[at], "raw parts hold other elements");
		let s = unsafe { SizedSlice::from_raw_parts(buf, l) };
		holds(&s, &raw, len);
		cover!(len == N, "full");
	}

	/// elements beyond the length are kept by set_len, and not shown before
	fn sequence(8, 9) {
		let (mut s, mut want, mut len) = slice();
		let data: [u16; N] = any();
		let mut i = 0;
		while i < 3 {
			match any::<u8>() {
				0 => {
					let n = up_to(N);
					s.copy_from_slice(&data[..n]);
					let mut k = 0;
					while k < N { if k < n { want[k] = data[k] } k += 1; }
					len = n;
				}
				1 => {
					let n = up_to(N);
					unsafe { s.set_len(n) };
					len = n;
				}
				2 => {
					let at = up_to(N - 1);
					if at < len { s[at] = 9; want[at] = 9; }
				}
				_ => s = s.clone(),
			}
			if len < N {
				// A clone need not keep what lies beyond the length.
				unsafe {
					let p = s.as_mut_ptr();
					let mut k = 0;
					while k < N { if k >= len { p.add(k).write(want[k]) } k += 1; }
				}
			}
			holds(&s, &want, len);
			i += 1;
		}
		cover!(len == 2, "some");
	}

	/// constructions from 9 elements, with a capacity of 20
	fn long_new_9(23, 23) { long_new::<9, 20>(); }

	/// constructions from 17 elements, with a capacity of 17
	fn long_new_17(20, 20) { long_new::<17, 17>(); }

	/// constructions from 35 elements, with a capacity of 40
	fn long_new_35(43, 43) { long_new::<35, 40>(); }

	/// views of 9 elements, with a capacity of 20
	fn long_views_9(23, 23) { long_views::<9, 20>(); }

	/// views of 17 elements, with a capacity of 17
	fn long_views_17(20, 20) { long_views::<17, 17>(); }

	/// views of 35 elements, with a capacity of 40
	fn long_views_35(43, 43) { long_views::<35, 40>(); }

	/// conversions from 9 elements, with a capacity of 20
	fn long_owned_9(23, 23) { long_owned::<9, 20>(); }

	/// conversions from 17 elements, with a capacity of 17
	fn long_owned_17(20, 20) { long_owned::<17, 17>(); }

	/// conversions from 35 elements, with a capacity of 40
	fn long_owned_35(43, 43) { long_owned::<35, 40>(); }
}
