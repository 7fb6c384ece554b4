//! C16: equality, ordering and hashing agree with slices and strings.
use crate::groups::prelude::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::mem::MaybeUninit;

/// Capacities of the two sides.
const A: usize = if cfg!(feature = "thorough") { 4 } else { 3 };
const B: usize = if cfg!(feature = "thorough") { 5 } else { 4 };

fn up_to(max: usize) -> usize {
	let n: usize = any();
	assume(n <= max);
	n
}

/// Any slice of any length; what lies beyond the length is arbitrary.
fn slice<T: Copy + crate::sym::Sym, const N: usize>() -> (SizedSlice<T, N>, [T; N], usize)
where
	[T; N]: crate::sym::Sym,
{
	let raw: [T; N] = any();
	let len = up_to(N);
	(unsafe { SizedSlice::from_raw_parts(raw.map(MaybeUninit::new), len) }, raw, len)
}

/// Any text of at most `N` octets; what lies beyond it is arbitrary.
fn text<const N: usize>() -> (SizedStr<N>, [u8; N], usize) {
	let b: [u8; N] = any();
	assume(utf8_valid_up_to(&b) == N);
	let len = up_to(N);
	assume(len == N || b[len] & 0xC0 != 0x80);
	let mut raw = b;
	let junk: [u8; N] = any();
	let mut k = 0;
	while k < N {
		if k >= len { raw[k] = junk[k] }
		k += 1;
	}
	(unsafe { SizedStr::from_raw_parts(raw, len) }, raw, len)
}

/// Lexicographic order of the first `n` of `a` and the first `m` of `b`.
fn order<T: Ord, const N: usize, const M: usize>(a: &[T; N], n: usize, b: &[T; M], m: usize) -> Ordering {
	let mut k = 0;
	let mut r = Ordering::Equal;
	while k < N && k < M {
		if r == Ordering::Equal && k < n && k < m {
			r = a[k].cmp(&b[k]);
		}
		k += 1;
	}
	if r == Ordering::Equal { n.cmp(&m) } else { r }
}

/// All comparisons of `$a` with `$b`.
macro_rules! compared {
	($a:expr, $b:expr, $want:expr) => {{
		let (a, b, want) = ($a, $b, $want);
		check!((*a == *b) == (want == Ordering::Equal), "equality disagrees");
		check!((*a != *b) == (want != Ordering::Equal), "inequality disagrees");
		check!(a.partial_cmp(b) == Some(want), "the partial order disagrees");
		check!((*a < *b) == (want == Ordering::Less), "less-than disagrees");
		check!((*a <= *b) == (want != Ordering::Greater), "less-or-equal disagrees");
		check!((*a > *b) == (want == Ordering::Greater), "greater-than disagrees");
		check!((*a >= *b) == (want != Ordering::Less), "greater-or-equal disagrees");
	}};
}

/// All comparisons of `$a` with `$b`, which may be unordered.
macro_rules! compared_partially {
	($a:expr, $b:expr, $eq:expr, $want:expr) => {{
		let (a, b, want) = ($a, $b, $want);
		check!((*a == *b) == $eq, "equality disagrees");
		check!((*a != *b) != $eq, "inequality disagrees");
		check!(a.partial_cmp(b) == want, "the partial order disagrees");
		check!((*a < *b) == (want == Some(Ordering::Less)), "less-than disagrees");
		check!((*a >= *b) == matches!(want, Some(Ordering::Greater | Ordering::Equal)), "greater-or-equal disagrees");
	}};
}

/// Records what it is given.
struct Recorder {
	buf: [u8; 32],
	len: usize,
}

impl Recorder {
	fn of<T: Hash + ?Sized>(v: &T) -> Self {
		let mut r = Recorder { buf: [0; 32], len: 0 };
		v.hash(&mut r);
		r
	}

	fn same(&self, o: &Self) -> bool {
		let mut same = self.len == o.len;
		let mut k = 0;
		while k < 32 {
			same &= self.buf[k] == o.buf[k];
			k += 1;
		}
		same
	}
}

impl Hasher for Recorder {
	fn write(&mut self, b: &[u8]) {
		let mut k = 0;
		while k < 10 {
			if k < b.len() {
				assert!(self.len < 32);
				self.buf[self.len] = b[k];
				self.len += 1;
			}
			k += 1;
		}
		assert!(b.len() <= 10);
	}

	fn finish(&self) -> u64 {
		self.len as u64
	}
}

/// A number that compares with u8.
#[derive(Clone, Copy)]
struct Half(u8);

impl PartialEq<u8> for Half {
	fn eq(&self, o: &u8) -> bool { self.0 / 2 == *o }
}

impl PartialEq<Half> for u8 {
	fn eq(&self, o: &Half) -> bool { *self == o.0 / 2 }
}

/// Records what it is given, at length.
struct LongRecorder {
	buf: [u8; 64],
	len: usize,
}

impl LongRecorder {
	fn of<T: Hash + ?Sized>(v: &T) -> Self {
		let mut r = LongRecorder { buf: [0; 64], len: 0 };
		v.hash(&mut r);
		r
	}

	fn same(&self, o: &Self) -> bool {
		let mut same = self.len == o.len;
		let mut k = 0;
		while k < 64 {
			same &= self.buf[k] == o.buf[k];
			k += 1;
		}
		same
	}
}

impl Hasher for LongRecorder {
	fn write(&mut self, b: &[u8]) {
		let mut k = 0;
		while k < b.len() {
			self.buf[self.len + k] = b[k];
			k += 1;
		}
		self.len += b.len();
	}

	fn finish(&self) -> u64 {
		self.len as u64
	}
}

/// Two arrays that agree at all but one place, where anything may be.
fn twins<const L: usize>() -> ([u8; L], [u8; L], Ordering) {
	let a: [u8; L] = any();
	let mut b = a;
	let (at, to) = (up_to(L - 1), any::<u8>());
	b[at] = to;
	cover!(at == L - 1 && a[at] != to, "the last differs");
	cover!(a[at] == to, "equal");
	(a, b, a[at].cmp(&to))
}

/// Slices of `L` elements in capacities `C` and `D`.
fn long<const L: usize, const C: usize, const D: usize>() {
	let (x, y, want) = twins::<L>();
	let a = SizedSlice::<u8, C>::new(&x).unwrap();
	let b = SizedSlice::<u8, D>::new(&y).unwrap();
	check!((a == b) == (want == Ordering::Equal), "equality disagrees");
	check!(a.partial_cmp(&b) == Some(want), "the partial order disagrees");
	check!((a == &y[..]) == (want == Ordering::Equal), "equality disagrees");
	check!((a == y) == (want == Ordering::Equal), "equality disagrees");
	check!(a.partial_cmp(&&y[..]) == Some(want), "the partial order disagrees");
	check!(a.partial_cmp(&y) == Some(want), "the partial order disagrees");
	let c = SizedSlice::<u8, C>::new(&y).unwrap();
	check!(a.cmp(&c) == want, "the order disagrees");
	// One is a prefix of the other.
	let d = SizedSlice::<u8, D>::new(&x[..L - 1]).unwrap();
	check!(a != d && d != a, "equality disagrees");
	check!(a.partial_cmp(&d) == Some(Ordering::Greater) && d.partial_cmp(&a) == Some(Ordering::Less), "the partial order disagrees");
}

/// Slices and vectors of `L` elements; hashes.
fn long_vec<const L: usize, const C: usize>() {
	let (x, y, want) = twins::<L>();
	let a = SizedSlice::<u8, C>::new(&x).unwrap();
	let v = y.to_vec();
	check!((a == v) == (want == Ordering::Equal), "equality disagrees");
	check!(a.partial_cmp(&v) == Some(want), "the partial order disagrees");
	check!(LongRecorder::of(&a).same(&LongRecorder::of(&x[..])), "the hash differs from that of the plain slice");
}

/// Strings of `L` octets in limits `C` and `D`.
fn long_text<const L: usize, const C: usize, const D: usize>() {
	let (x, y, want) = twins::<L>();
	assume(utf8_valid_up_to(&x) == L && utf8_valid_up_to(&y) == L);
	let (p, q) = unsafe { (std::str::from_utf8_unchecked(&x), std::str::from_utf8_unchecked(&y)) };
	let a = SizedStr::<C>::new(p).unwrap();
	let b = SizedStr::<D>::new(q).unwrap();
	check!((a == b) == (want == Ordering::Equal), "equality disagrees");
	check!(a.partial_cmp(&b) == Some(want), "the partial order disagrees");
	check!((a == q) == (want == Ordering::Equal), "equality disagrees");
	check!(a.partial_cmp(&q) == Some(want), "the partial order disagrees");
	let c = SizedStr::<C>::new(q).unwrap();
	check!(a.cmp(&c) == want, "the order disagrees");
	check!(LongRecorder::of(&a).same(&LongRecorder::of(p)), "the hash differs from that of the plain string");
	let t = q.to_string();
	check!((a == t) == (want == Ordering::Equal), "equality disagrees");
	check!(a.partial_cmp(&t) == Some(want), "the partial order disagrees");
}

harnesses! {
	/// slices of different capacities
	fn slices(6, 7) {
		let (a, x, n) = slice::<u8, A>();
		let (b, y, m) = slice::<u8, B>();
		let want = order(&x, n, &y, m);
		compared!(&a, &b, want);
		compared!(&b, &a, want.reverse());
		cover!(want == Ordering::Equal && n == A, "equal");
		cover!(want == Ordering::Less && n < m && n == 2 && x[0] == y[0] && x[1] == y[1], "a prefix");
		cover!(want == Ordering::Greater && n < m, "greater and shorter");
	}

	/// slices of signed numbers of the same capacity: also the total order
	fn slices_total(12, 14) {
		let (a, x, n) = slice::<i16, A>();
		let (b, y, m) = slice::<i16, A>();
		let want = order(&x, n, &y, m);
		compared!(&a, &b, want);
		check!(a.cmp(&b) == want, "the order disagrees");
		check!(Ord::max(a, b).as_slice().len() == if want == Ordering::Greater { n } else { m }, "the order disagrees");
		cover!(want == Ordering::Less && n == A && m == A && x[0] < 0 && y[0] > 0, "signed");
	}

	/// slices and plain slices
	fn slice_plain(6, 7) {
		let (a, x, n) = slice::<u8, A>();
		let y: [u8; B] = any();
		let m = up_to(B);
		compared!(&a, &&y[..m], order(&x, n, &y, m));
		cover!(n == m && n == 2 && x[0] == y[0] && x[1] == y[1], "equal");
	}

	/// slices and arrays
	fn slice_array(6, 7) {
		let (a, x, n) = slice::<u8, B>();
		let y: [u8; A] = any();
		compared!(&a, &y, order(&x, n, &y, A));
		cover!(n == A && order(&x, n, &y, A) == Ordering::Equal, "equal");
		let y: [u8; 0] = [];
		compared!(&a, &y, order(&x, n, &y, 0));
	}

	/// slices and vectors
	fn slice_vec(6, 7) {
		let (a, x, n) = slice::<u8, A>();
		let y: [u8; B] = any();
		let m = up_to(B);
		let v = y[..m].to_vec();
		compared!(&a, &v, order(&x, n, &y, m));
		cover!(n == m && n == 2 && x[0] == y[0] && x[1] == y[1], "equal");
	}

	/// slices of floats: as plain slices, whatever is not a number
	fn floats(6, 7) {
		let (a, x, n) = slice::<f32, 2>();
		let (b, y, m) = slice::<f32, 3>();
		let (p, q) = (&x[..n], &y[..m]);
		compared_partially!(&a, &b, p == q, p.partial_cmp(q));
		compared_partially!(&a, &&y[..m], p == q, p.partial_cmp(q));
		compared_partially!(&a, &y, p == y, p.partial_cmp(&y[..]));
		cover!(n == 2 && m == 2 && x[1].is_nan() && x[0] == y[0], "unordered");
		cover!(p == q && n == 2 && x[0].to_bits() != y[0].to_bits(), "equal with different octets");
	}

	/// slices of another type than they are compared with
	fn mixed(6, 7) {
		let (a, x, n) = slice::<u8, A>();
		let a = unsafe { SizedSlice::from_raw_parts(x.map(|v| MaybeUninit::new(Half(v))), { let _ = a; n }) };
		let (b, y, m) = slice::<u8, B>();
		let mut want = n == m;
		let mut k = 0;
		while k < A {
			if k < n && k < m && x[k] / 2 != y[k] { want = false }
			k += 1;
		}
		check!((a == b) == want && (b == a) == want, "equality disagrees");
		check!((a == &y[..m]) == want && (a != &y[..m]) != want, "equality disagrees");
		check!((a == y[..m].to_vec()) == want, "equality disagrees");
		let z: [u8; 2] = [y[0], y[1]];
		check!((a == z) == (n == 2 && x[0] / 2 == z[0] && x[1] / 2 == z[1]), "equality disagrees");
		cover!(want && n == A, "equal");
	}

	/// slices without size or capacity
	fn units(6, 6) {
		let (p, q) = (up_to(2), up_to(2));
		let (mut a, mut b) = (SizedSlice::from([(), ()]), SizedSlice::from([(), (), ()]));
		unsafe { a.set_len(p); b.set_len(q) };
		compared!(&a, &b, p.cmp(&q));
		let (e, f) = (SizedSlice::<u8, 0>::default(), slice::<u8, 2>());
		compared!(&e, &f.0, 0.cmp(&f.2));
		compared!(&f.0, &e, f.2.cmp(&0));
	}

	/// equal slices hash equally, also to plain slices
	fn slice_hash(34, 34) {
		let (a, x, n) = slice::<u8, A>();
		let r = Recorder::of(&a);
		check!(r.same(&Recorder::of(&x[..n])), "the hash differs from that of the plain slice");
		check!(r.same(&Recorder::of(Borrow::<[u8]>::borrow(&a))), "the hash differs from that of the borrowed form");
		let (b, _, _) = slice::<u8, B>();
		if a == b {
			check!(r.same(&Recorder::of(&b)), "equal slices have different hashes");
			cover!(n == 2, "equal");
		}
	}

	/// hashes of slices of wider numbers, and of no elements
	fn slice_hash_wide(34, 34) {
		let (a, x, n) = slice::<u16, 2>();
		let r = Recorder::of(&a);
		check!(r.same(&Recorder::of(&x[..n])), "the hash differs from that of the plain slice");
		let (b, _, _) = slice::<u16, 3>();
		if a == b {
			check!(r.same(&Recorder::of(&b)), "equal slices have different hashes");
			cover!(n == 2, "equal");
		}
		let e = SizedSlice::<u16, 0>::default();
		check!(Recorder::of(&e).same(&Recorder::of::<[u16]>(&[])), "the hash differs from that of the plain slice");
	}

	/// strings of different limits
	fn strings(6, 7) {
		let (a, x, n) = text::<A>();
		let (b, y, m) = text::<B>();
		let want = order(&x, n, &y, m);
		compared!(&a, &b, want);
		compared!(&b, &a, want.reverse());
		cover!(want == Ordering::Equal && n == A && x[0] > 0x7F, "equal");
		cover!(want == Ordering::Greater && n < m, "greater and shorter");
	}

	/// strings of the same limit: also the total order
	fn strings_total(6, 7) {
		let (a, x, n) = text::<A>();
		let (b, y, m) = text::<A>();
		let want = order(&x, n, &y, m);
		compared!(&a, &b, want);
		check!(a.cmp(&b) == want, "the order disagrees");
		cover!(want == Ordering::Less && n > m && m > 0, "less and longer");
	}

	/// strings and plain strings
	fn string_plain(6, 7) {
		let (a, x, n) = text::<A>();
		let (t, y, m) = text::<B>();
		compared!(&a, &t.as_str(), order(&x, n, &y, m));
		cover!(n == m && n == 2 && x[0] == y[0] && x[1] == y[1], "equal");
	}

	/// strings and owned strings
	fn string_owned(6, 7) {
		let (a, x, n) = text::<A>();
		let (_, y, m) = text::<B>();
		let t = unsafe { String::from_utf8_unchecked(y[..m].to_vec()) };
		compared!(&a, &t, order(&x, n, &y, m));
		cover!(n == m && n == 2 && x[0] == y[0] && x[1] == y[1], "equal");
	}

	/// equal strings hash equally, also to plain strings
	fn string_hash(34, 34) {
		let (a, _, n) = text::<A>();
		let r = Recorder::of(&a);
		check!(r.same(&Recorder::of(a.as_str())), "the hash differs from that of the plain string");
		check!(r.same(&Recorder::of(Borrow::<str>::borrow(&a))), "the hash differs from that of the borrowed form");
		let (b, _, _) = text::<B>();
		if a == b {
			check!(r.same(&Recorder::of(&b)), "equal strings have different hashes");
			cover!(n == 2, "equal");
		}
	}

	/// slices of 9 elements that differ at one place at most
	fn long_9(14, 14) { long::<9, 9, 12>(); }

	/// slices and vectors of 9 elements that differ at one place at most, and hashes
	fn long_vec_9(66, 66) { long_vec::<9, 9>(); }

	/// strings of 9 octets that differ at one place at most, and hashes
	fn long_text_9(66, 66) { long_text::<9, 9, 12>(); }

	/// slices of 17 elements that differ at one place at most
	fn long_17(22, 22) { long::<17, 20, 17>(); }

	/// slices and vectors of 17 elements that differ at one place at most, and hashes
	fn long_vec_17(66, 66) { long_vec::<17, 20>(); }

	/// strings of 17 octets that differ at one place at most, and hashes
	fn long_text_17(66, 66) { long_text::<17, 20, 17>(); }

	/// slices of 35 elements that differ at one place at most
	fn long_35(42, 42) { long::<35, 35, 40>(); }

	/// slices and vectors of 35 elements that differ at one place at most, and hashes
	fn long_vec_35(66, 66) { long_vec::<35, 35>(); }

	/// strings of 35 octets that differ at one place at most, and hashes
	fn long_text_35(66, 66) { long_text::<35, 35, 40>(); }
}
