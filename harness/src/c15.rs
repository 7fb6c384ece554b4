//! C15: no element is ever duplicated or dropped twice.
use crate::groups::prelude::*;
use oct::{SizedIter, Slot};
use std::mem::MaybeUninit;

/// Capacity.
const N: usize = if cfg!(feature = "thorough") { 4 } else { 3 };

/// Operations in a row.
const STEPS: usize = if cfg!(feature = "thorough") { 4 } else { 3 };

fn up_to(max: usize) -> usize {
	let n: usize = any();
	assume(n <= max);
	n
}

/// How many elements a harness may make.
const M: usize = 32;

/// What became of each element.
struct Ledger {
	made: usize,
	destroyed: [bool; M],
	origin: [usize; M],
}

static mut LEDGER: Ledger = Ledger { made: 0, destroyed: [false; M], origin: [M; M] };

#[allow(static_mut_refs)]
fn ledger() -> &'static mut Ledger {
	// SAFETY: Harnesses have one thread, and no reference is kept.
	unsafe { &mut LEDGER }
}

fn start() {
	let l = ledger();
	l.made = 0;
	l.destroyed = [false; M];
	l.origin = [M; M];
}

fn made() -> usize {
	ledger().made
}

fn destroyed(id: usize) -> bool {
	ledger().destroyed[id]
}

/// All elements `lo..hi` are still there.
fn all_there(lo: usize, hi: usize) {
	let k = up_to(M - 1);
	check!(k < lo || k >= hi || !destroyed(k), "an element is destroyed while it can still be reached");
}

/// All elements `lo..hi` are destroyed.
fn all_gone(lo: usize, hi: usize) {
	let k = up_to(M - 1);
	check!(k < lo || k >= hi || destroyed(k), "an element that was handed over is not destroyed with its owner");
}

/// An element, of any size.
struct Tok<const P: usize>(usize, [u64; P]);

impl<const P: usize> Tok<P> {
	fn new(origin: usize) -> Self {
		let l = ledger();
		let id = l.made;
		assert!(id < M);
		l.origin[id] = origin;
		l.made += 1;
		Self(id, [id as u64; P])
	}

	/// The element, which must be there.
	fn id(&self) -> usize {
		check!(self.0 < made(), "an element appears that was never made");
		check!(!destroyed(self.0), "a destroyed element is used");
		check!(P == 0 || self.1[P - 1] == self.0 as u64, "only a part of an element is there");
		self.0
	}
}

impl<const P: usize> Clone for Tok<P> {
	fn clone(&self) -> Self {
		Self::new(self.id())
	}
}

impl<const P: usize> Drop for Tok<P> {
	fn drop(&mut self) {
		check!(self.0 < made(), "an element is destroyed that was never made");
		check!(!destroyed(self.0), "an element is destroyed twice");
		ledger().destroyed[self.0] = true;
	}
}

#[derive(Debug)]
struct Bad;

impl<const P: usize> Decode for Tok<P> {
	type Error = Bad;
	fn decode(i: &mut Input) -> Result<Self, Bad> {
		match u8::decode(i) {
			Ok(0xFF) => Err(Bad),
			Ok(_) => Ok(Self::new(M)),
			Err(_) => Err(Bad),
		}
	}
}

impl<const P: usize> Encode for Tok<P> {
	type Error = Bad;
	fn encode(&self, o: &mut Output) -> Result<(), Bad> {
		match (self.id() as u8).encode(o) {
			Ok(()) => Ok(()),
			Err(_) => Err(Bad),
		}
	}
}

impl<const P: usize> SizedEncode for Tok<P> {
	const MAX_ENCODED_SIZE: usize = 1;
}

fn toks<const P: usize, const K: usize>() -> [Tok<P>; K] {
	std::array::from_fn(|_| Tok::new(M))
}

/// A slice of `len` elements, which are `0..len`.
fn slice<const P: usize>() -> (SizedSlice<Tok<P>, N>, usize) {
	start();
	let len = up_to(N);
	let mut buf = [const { MaybeUninit::uninit() }; N];
	let mut k = 0;
	while k < N {
		if k < len { buf[k].write(Tok::new(M)); }
		k += 1;
	}
	(unsafe { SizedSlice::from_raw_parts(buf, len) }, len)
}

/// `v` is exactly the elements from `lo` on.
fn exactly<const P: usize>(v: &[Tok<P>], lo: usize, len: usize) {
	check!(v.len() == len, "elements are lost or appear");
	let k = up_to(N);
	check!(k >= len || v[k].id() == lo + k, "another element is shown");
}

/// An iterator in any state over elements `lo..hi`; the others have been
/// destroyed.
fn iter<const P: usize>() -> (SizedIter<Tok<P>, N>, usize, usize) {
	let (s, len) = slice();
	let mut it = s.into_iter();
	let (lo, hi) = (up_to(len), up_to(len));
	assume(lo <= hi);
	let mut k = 0;
	while k < N {
		if k < lo { check!(matches!(it.next(), Some(t) if t.id() == k), "another element is handed out") }
		k += 1;
	}
	let mut k = N;
	while k > 0 {
		k -= 1;
		if k >= hi && k < len { check!(matches!(it.next_back(), Some(t) if t.id() == k), "another element is handed out") }
	}
	exactly(it.as_slice(), lo, hi - lo);
	(it, lo, hi)
}

/// A collection of elements.
trait Owns<const P: usize>: Sized {
	fn drain(self, f: impl FnMut(Tok<P>));
}

macro_rules! owns {
	($($t:ty),*) => { $(
		impl<const P: usize> Owns<P> for $t {
			fn drain(self, mut f: impl FnMut(Tok<P>)) {
				for v in self { f(v) }
			}
		}
	)* };
}

owns!(Vec<Tok<P>>, LinkedList<Tok<P>>, [Tok<P>; 2], SizedSlice<Tok<P>, 2>, Option<Tok<P>>);

impl<const P: usize> Owns<P> for Box<Tok<P>> {
	fn drain(self, mut f: impl FnMut(Tok<P>)) { f(*self) }
}

impl<const P: usize> Owns<P> for RefCell<Tok<P>> {
	fn drain(self, mut f: impl FnMut(Tok<P>)) { f(self.into_inner()) }
}

impl<const P: usize> Owns<P> for Mutex<Tok<P>> {
	fn drain(self, mut f: impl FnMut(Tok<P>)) { match self.into_inner() { Ok(t) => f(t), Err(_) => panic!() } }
}

impl<const P: usize> Owns<P> for (Tok<P>, Tok<P>) {
	fn drain(self, mut f: impl FnMut(Tok<P>)) { f(self.0); f(self.1) }
}

impl<const P: usize> Owns<P> for Result<Tok<P>, Tok<P>> {
	fn drain(self, mut f: impl FnMut(Tok<P>)) { match self { Ok(t) | Err(t) => f(t) } }
}

impl<const P: usize> Owns<P> for Range<Tok<P>> {
	fn drain(self, mut f: impl FnMut(Tok<P>)) { f(self.start); f(self.end) }
}

/// Decodes a collection from octets that start with `tag`.
fn decode<const P: usize, C: Owns<P> + Decode>(tag: &[u8]) {
	start();
	let mut raw: [u8; 6] = any();
	let at = tag.len();
	if at > 0 { raw[0] = tag[0] }
	if at > 1 { raw[1] = tag[1] }

	match dec::<C>(&raw).0 {
		Ok(c) => {
			all_there(0, made());
			let mut next = 0;
			c.drain(|t| {
				check!(t.id() == next, "another element is decoded");
				next += 1;
			});
			check!(next == made(), "an element that was decoded is lost");
			all_gone(0, made());
			cover!(true, "decoded");
		}
		Err(_) => cover!(true, "refused"),
	}
}

/// From an array: the very elements, none destroyed, none made.
fn t_array<const P: usize>() {
	start();
	let s = SizedSlice::from(toks::<P, N>());
	check!(made() == N, "an element is made");
	all_there(0, N);
	exactly(&s, 0, N);
	if any() {
		drop(s);
	} else {
		let mut it = s.into_iter();
		let t = it.next();
		all_there(0, N);
		drop(t);
		check!(destroyed(0), "an element that was handed out is not destroyed with its owner");
		all_there(1, N);
		drop(it);
	}
}

/// From a slice: one clone of each element, in order.
fn t_new<const P: usize>() {
	start();
	let src = toks::<P, { N + 1 }>();
	let n = up_to(N + 1);
	let r = SizedSlice::<Tok<P>, N>::new(&src[..n]);
	all_there(0, N + 1);
	match r {
		Ok(s) => {
			check!(made() == N + 1 + n, "another number of elements is made");
			exactly(&s, N + 1, n);
			let k = up_to(N);
			check!(k >= n || ledger().origin[N + 1 + k] == k, "a clone is of another element");
			drop(src);
			all_gone(0, N + 1);
			exactly(&s, N + 1, n);
			cover!(n == N, "full");
		}
		Err(_) => check!(made() == N + 1, "elements of a refused slice are cloned"),
	}
}

/// Collecting takes over the elements it takes, and leaves the others.
fn t_collect<const P: usize>() {
	start();
	let n = up_to(N + 1);
	let mut left = n;
	let mut src = std::iter::from_fn(|| if left > 0 { left -= 1; Some(Tok::<P>::new(M)) } else { None });
	let s: SizedSlice<Tok<P>, N> = (&mut src).collect();
	let len = if n < N { n } else { N };
	all_there(0, made());
	check!(made() == len, "an element beyond the capacity is taken");
	exactly(&s, 0, len);
	check!(src.next().is_some() == (n > N), "an element is lost");
	exactly(&s, 0, len);
	cover!(n == N + 1, "cut");
}

/// A clone makes one element per element and leaves the original alone.
fn t_clone<const P: usize>() {
	let (s, len) = slice::<P>();
	let c = s.clone();
	check!(made() == 2 * len, "another number of elements is made");
	all_there(0, made());
	exactly(&s, 0, len);
	exactly(&c, len, len);
	let k = up_to(N);
	check!(k >= len || ledger().origin[len + k] == k, "a clone is of another element");
	drop(s.into_vec());
	all_gone(0, len);
	exactly(&c, len, len);
	cover!(len == N, "full");
}

/// Boxed slices and vectors take over every element, and destroy none.
fn t_boxed<const P: usize>() {
	let (s, len) = slice::<P>();
	let v: Vec<Tok<P>> = match any::<u8>() {
		0 => s.into_vec(),
		1 => s.into(),
		2 => s.into_boxed_slice().into_vec(),
		_ => Box::<[Tok<P>]>::from(s).into_vec(),
	};
	check!(made() == len, "an element is made");
	all_there(0, len);
	exactly(&v, 0, len);
	drop(v);
	all_gone(0, len);
	cover!(len == N, "full");
}

/// Views and comparisons destroy and make nothing.
fn t_views<const P: usize>() {
	let (mut s, len) = slice::<P>();
	{
		let e = s.each_ref();
		check!(e.len() == len && (len == 0 || e[0].id() == 0), "another element is shown");
	}
	{
		let e = s.each_mut();
		check!(e.len() == len && (len == 0 || e[len - 1].id() == len - 1), "another element is shown");
	}
	for t in &s { t.id(); }
	for t in &mut s { t.id(); }
	let _: (&[Tok<P>], usize) = (s.as_ref(), s.len());
	let _: &mut [Tok<P>] = s.as_mut();
	check!(made() == len, "an element is made");
	all_there(0, len);
	exactly(&s, 0, len);
	cover!(len == N, "full");
}

/// Raw parts keep the elements.
fn t_raw_parts<const P: usize>() {
	let (s, len) = slice::<P>();
	let (buf, l) = s.into_raw_parts();
	all_there(0, len);
	let s = unsafe { SizedSlice::from_raw_parts(buf, l) };
	check!(made() == len, "an element is made");
	exactly(&s, 0, len);
	cover!(len == N, "full");
}

/// Swapping and replacing elements moves them.
fn t_moves<const P: usize>() {
	let (mut s, len) = slice::<P>();
	let (a, b) = (up_to(N), up_to(N));
	assume(a < len && b < len);
	s.swap(a, b);
	all_there(0, len);
	check!(s[a].id() == b && s[b].id() == a, "another element is shown");
	s[a] = Tok::<P>::new(M);
	check!(destroyed(b) && s[a].id() == len, "a replaced element is not destroyed");
	let k = up_to(N);
	check!(k >= len || k == b || !destroyed(k), "an element is destroyed while it can still be reached");
	cover!(a != b && len == N, "full");
}

/// The owning iterator hands out the very elements, once each.
fn t_iterate<const P: usize>() {
	let (mut it, mut lo, mut hi) = iter::<P>();
	let total = made();
	let mut k = 0;
	while k < STEPS {
		let front: bool = any();
		let t = if front { it.next() } else { it.next_back() };
		match t {
			Some(t) => {
				check!(lo < hi && t.id() == if front { lo } else { hi - 1 }, "another element is handed out");
				if front { lo += 1 } else { hi -= 1 }
			}
			None => check!(lo == hi, "an element is lost"),
		}
		all_there(lo, hi);
		exactly(it.as_slice(), lo, hi - lo);
		k += 1;
	}
	check!(made() == total, "an element is made");
	drop(it);
	cover!(hi == 1 && total == N, "one left");
}

/// Skipping destroys exactly the skipped elements, once each.
fn t_nth<const P: usize>() {
	let (mut it, lo, hi) = iter::<P>();
	let n = up_to(N + 1);
	let total = made();
	let t = it.nth(n);
	check!(made() == total, "an element is made");
	let first = if n < hi - lo { lo + n } else { hi };
	all_gone(lo, first);
	all_there(first, hi);
	match t {
		Some(t) => {
			check!(n < hi - lo && t.id() == lo + n, "another element is handed out");
			// Known finding `nth`: the element may also remain.
			std::mem::forget(t);
			let rest = if it.len() == hi - first { first } else { first + 1 };
			exactly(it.as_slice(), rest, hi - rest);
			while let Some(u) = it.next() { u.id(); }
			cover!(n == 1, "skipped one");
		}
		None => {
			check!(n >= hi - lo && it.next().is_none(), "an element is lost");
			cover!(n > hi - lo && hi - lo > 1, "skipped all");
		}
	}
}

/// The element returned when skipping ahead is handed out once.
fn t_nth_kf<const P: usize>() {
	let (mut it, lo, hi) = iter::<P>();
	let n = up_to(N);
	assume(n < hi - lo);
	let t = it.nth(n);
	let again = matches!((&t, it.as_slice().first()), (Some(a), Some(b)) if a.0 == b.0);
	std::mem::forget(t);
	std::mem::forget(it);
	check!(!again, "the element returned when skipping ahead remains");
}

/// Skipping from the back, and counting, destroy exactly what is skipped.
fn t_consume<const P: usize>() {
	let (mut it, lo, hi) = iter::<P>();
	match any::<u8>() {
		0 => {
			let n = up_to(N);
			let t = it.nth_back(n);
			check!(t.is_some() == (n < hi - lo), "an element is lost");
			let last = if n < hi - lo { hi - n - 1 } else { lo };
			if let Some(t) = &t {
				check!(t.id() == last, "another element is handed out");
				all_gone(last + 1, hi);
			} else {
				all_gone(lo, hi);
			}
			all_there(lo, last);
			exactly(it.as_slice(), lo, last - lo);
		}
		1 => {
			check!(it.count() == hi - lo, "an element is lost");
			all_gone(lo, hi);
		}
		_ => {
			let s: SizedSlice<Tok<P>, N> = it.collect();
			all_there(lo, hi);
			exactly(&s, lo, hi - lo);
			cover!(hi - lo == 2, "collected");
		}
	}
}

/// A clone of an iterator makes one element per remaining element.
fn t_clone_iter<const P: usize>() {
	let (mut it, lo, hi) = iter::<P>();
	let total = made();
	let mut c = it.clone();
	check!(made() == total + hi - lo, "another number of elements is made");
	all_there(lo, hi);
	all_there(total, made());
	exactly(it.as_slice(), lo, hi - lo);
	exactly(c.as_slice(), total, hi - lo);
	let k = up_to(N);
	check!(k >= hi - lo || ledger().origin[total + k] == lo + k, "a clone is of another element");
	while it.next().is_some() {}
	all_gone(lo, hi);
	all_there(total, made());
	while c.next_back().is_some() {}
	all_gone(total, made());
	cover!(hi - lo == 2 && lo == 1, "in the middle");
}

/// Decoding a vector of 1 element: made, handed over, and destroyed once.
fn t_decode_vec<const P: usize>() { decode::<P, Vec<Tok<P>>>(&[1, 0]); }

/// Decoding a vector of 2 elements.
fn t_decode_vec_2<const P: usize>() { decode::<P, Vec<Tok<P>>>(&[2, 0]); }

/// Decoding a vector of 3 elements.
fn t_decode_vec_3<const P: usize>() { decode::<P, Vec<Tok<P>>>(&[3, 0]); }

/// Decoding a linked list.
fn t_decode_list<const P: usize>() { decode::<P, LinkedList<Tok<P>>>(&[up_to(2) as u8, 0]); }

/// Decoding a size-limited slice.
fn t_decode_sized<const P: usize>() { decode::<P, SizedSlice<Tok<P>, 2>>(&[up_to(3) as u8, 0]); }

/// Decoding an array.
fn t_decode_array<const P: usize>() { decode::<P, [Tok<P>; 2]>(&[]); }

/// Decoding an option.
fn t_decode_option<const P: usize>() { decode::<P, Option<Tok<P>>>(&[1]); }

/// Decoding pairs and ranges.
fn t_decode_pair<const P: usize>() { decode::<P, (Tok<P>, Tok<P>)>(&[]); decode::<P, Range<Tok<P>>>(&[]); }

/// Decoding results.
fn t_decode_result<const P: usize>() { decode::<P, Result<Tok<P>, Tok<P>>>(&[any::<bool>() as u8]); }

/// Decoding boxes, cells and mutexes.
fn t_decode_box<const P: usize>() { decode::<P, Box<Tok<P>>>(&[]); decode::<P, RefCell<Tok<P>>>(&[]); decode::<P, Mutex<Tok<P>>>(&[]); }

/// Encoding neither makes nor destroys elements.
fn t_encode<const P: usize>() {
	let (s, len) = slice::<P>();
	let mut buf = [0u8; 16];
	check!(enc(&s, &mut buf) == 2 + len, "other elements are encoded");
	let k = up_to(N);
	check!(k >= len || buf[2 + k] as usize == k, "other elements are encoded");
	check!(made() == len, "an element is made");
	all_there(0, len);
	exactly(&s, 0, len);
	let v = s.into_vec();
	check!(enc(&v, &mut buf) == 2 + len, "other elements are encoded");
	check!(made() == len, "an element is made");
	all_there(0, len);
	drop(v);
	all_gone(0, len);
	cover!(len == N, "full");
}

/// Writing to a slot destroys an owned value once, and a borrowed one never.
fn t_slot<const P: usize>() {
	start();
	let mut s = Slot::<Tok<P>>::new();
	let t = Tok::<P>::new(M);
	check!(is_ok(&s.write(&t)), "writing fails");
	check!(!destroyed(0), "an element is destroyed while it can still be reached");
	check!(is_ok(&s.write(t)), "writing fails");
	check!(destroyed(0) && made() == 1, "an element is lost");
	let r = s.read();
	check!(is_ok(&r) && made() == 2, "reading fails");
	drop(r);
	check!(destroyed(1), "an element is lost");
	drop(s);
}

harnesses! {
	/// from an array: the very elements, none destroyed, none made
	fn array(8, 8) { t_array::<0>() }

	/// from an array: the very elements, none destroyed, none made; elements larger than a pointer
	fn array_wide(8, 8) { t_array::<2>() }

	/// from a slice: one clone of each element, in order
	fn new(8, 8) { t_new::<0>() }

	/// from a slice: one clone of each element, in order; elements larger than a pointer
	fn new_wide(8, 8) { t_new::<2>() }

	/// collecting takes over the elements it takes, and leaves the others
	fn collect(8, 8) { t_collect::<0>() }

	/// collecting takes over the elements it takes, and leaves the others; elements larger than a pointer
	fn collect_wide(8, 8) { t_collect::<2>() }

	/// a clone makes one element per element and leaves the original alone
	fn clone(8, 8) { t_clone::<0>() }

	/// a clone makes one element per element and leaves the original alone; elements larger than a pointer
	fn clone_wide(8, 8) { t_clone::<2>() }

	/// boxed slices and vectors take over every element, and destroy none
	fn boxed(8, 8) { t_boxed::<0>() }

	/// boxed slices and vectors take over every element, and destroy none; elements larger than a pointer
	fn boxed_wide(8, 8) { t_boxed::<2>() }

	/// views and comparisons destroy and make nothing
	fn views(8, 8) { t_views::<0>() }

	/// views and comparisons destroy and make nothing; elements larger than a pointer
	fn views_wide(8, 8) { t_views::<2>() }

	/// raw parts keep the elements
	fn raw_parts(8, 8) { t_raw_parts::<0>() }

	/// raw parts keep the elements; elements larger than a pointer
	fn raw_parts_wide(8, 8) { t_raw_parts::<2>() }

	/// swapping and replacing elements moves them
	fn moves(8, 8) { t_moves::<0>() }

	/// swapping and replacing elements moves them; elements larger than a pointer
	fn moves_wide(8, 8) { t_moves::<2>() }

	/// the owning iterator hands out the very elements, once each
	fn iterate(8, 8) { t_iterate::<0>() }

	/// the owning iterator hands out the very elements, once each; elements larger than a pointer
	fn iterate_wide(8, 8) { t_iterate::<2>() }

	/// skipping destroys exactly the skipped elements, once each
	fn nth(8, 8) { t_nth::<0>() }

	/// skipping destroys exactly the skipped elements, once each; elements larger than a pointer
	fn nth_wide(8, 8) { t_nth::<2>() }

	/// the element returned when skipping ahead is handed out once
	fn nth_kf(8, 8) { t_nth_kf::<0>() }

	/// skipping from the back, and counting, destroy exactly what is skipped
	fn consume(8, 8) { t_consume::<0>() }

	/// skipping from the back, and counting, destroy exactly what is skipped; elements larger than a pointer
	fn consume_wide(8, 8) { t_consume::<2>() }

	/// a clone of an iterator makes one element per remaining element
	fn clone_iter(8, 8) { t_clone_iter::<0>() }

	/// a clone of an iterator makes one element per remaining element; elements larger than a pointer
	fn clone_iter_wide(8, 8) { t_clone_iter::<2>() }

	/// decoding a vector of 1 element: made, handed over, and destroyed once
	fn decode_vec(8, 8) { t_decode_vec::<0>() }

	/// decoding a vector of 1 element: made, handed over, and destroyed once; elements larger than a pointer
	fn decode_vec_wide(8, 8) { t_decode_vec::<2>() }

	/// decoding a vector of 2 elements
	fn decode_vec_2(8, 8) { t_decode_vec_2::<0>() }

	/// decoding a vector of 2 elements; elements larger than a pointer
	fn decode_vec_2_wide(8, 8) { t_decode_vec_2::<2>() }

	/// decoding a vector of 3 elements
	fn decode_vec_3(8, 8) { t_decode_vec_3::<0>() }

	/// decoding a vector of 3 elements; elements larger than a pointer
	fn decode_vec_3_wide(8, 8) { t_decode_vec_3::<2>() }

	/// decoding a linked list
	fn decode_list(8, 8) { t_decode_list::<0>() }

	/// decoding a linked list; elements larger than a pointer
	fn decode_list_wide(8, 8) { t_decode_list::<2>() }

	/// decoding a size-limited slice
	fn decode_sized(8, 8) { t_decode_sized::<0>() }

	/// decoding a size-limited slice; elements larger than a pointer
	fn decode_sized_wide(8, 8) { t_decode_sized::<2>() }

	/// decoding an array
	fn decode_array(8, 8) { t_decode_array::<0>() }

	/// decoding an array; elements larger than a pointer
	fn decode_array_wide(8, 8) { t_decode_array::<2>() }

	/// decoding an option
	fn decode_option(8, 8) { t_decode_option::<0>() }

	/// decoding an option; elements larger than a pointer
	fn decode_option_wide(8, 8) { t_decode_option::<2>() }

	/// decoding pairs and ranges
	fn decode_pair(8, 8) { t_decode_pair::<0>() }

	/// decoding pairs and ranges; elements larger than a pointer
	fn decode_pair_wide(8, 8) { t_decode_pair::<2>() }

	/// decoding results
	fn decode_result(8, 8) { t_decode_result::<0>() }

	/// decoding results; elements larger than a pointer
	fn decode_result_wide(8, 8) { t_decode_result::<2>() }

	/// decoding boxes, cells and mutexes
	fn decode_box(8, 8) { t_decode_box::<0>() }

	/// decoding boxes, cells and mutexes; elements larger than a pointer
	fn decode_box_wide(8, 8) { t_decode_box::<2>() }

	/// encoding neither makes nor destroys elements
	fn encode(8, 8) { t_encode::<0>() }

	/// encoding neither makes nor destroys elements; elements larger than a pointer
	fn encode_wide(8, 8) { t_encode::<2>() }

	/// writing to a slot destroys an owned value once, and a borrowed one never
	fn slot(8, 8) { t_slot::<0>() }

	/// writing to a slot destroys an owned value once, and a borrowed one never; elements larger than a pointer
	fn slot_wide(8, 8) { t_slot::<2>() }

	/// memory held by elements is freed at most once
	fn memory(8, 8) {
		let raw: [u8; 2] = any();
		let mut s = SizedSlice::from([Box::new(raw[0]), Box::new(raw[1])]);
		if any() { s = s.clone() }
		match any::<u8>() {
			0 => {
				let v = s.into_vec();
				check!(*v[0] == raw[0] && *v[1] == raw[1], "another element is handed out");
				drop(v);
			}
			1 => {
				let mut it = s.into_iter();
				let c = it.clone();
				check!(matches!(it.next_back(), Some(b) if *b == raw[1]), "another element is handed out");
				check!(matches!(it.next(), Some(b) if *b == raw[0]), "another element is handed out");
				check!(*c.as_slice()[0] == raw[0] && *c.as_slice()[1] == raw[1], "a clone is not independent");
				drop(it);
				drop(c);
			}
			2 => {
				let mut it = s.into_iter();
				check!(it.nth(2).is_none(), "an element too many");
				drop(it);
			}
			_ => {
				let e = s.each_mut();
				check!(**e[1] == raw[1], "another element is shown");
				s[0] = Box::new(9);
				check!(*s[0] == 9 && *s[1] == raw[1], "another element is shown");
				drop(s.into_boxed_slice());
			}
		}
	}
}
