//! C14: the owning iterator is an exact double-ended queue.
use crate::groups::prelude::*;
use oct::SizedIter;
use std::mem::MaybeUninit;

/// Capacity.
const N: usize = if cfg!(feature = "thorough") { 6 } else { 4 };

/// Operations in a row.
const STEPS: usize = if cfg!(feature = "thorough") { 5 } else { 3 };

fn up_to(max: usize) -> usize {
	let n: usize = any();
	assume(n <= max);
	n
}

/// `it` holds exactly `raw[lo..hi]`.
fn at<const N: usize>(it: &SizedIter<u16, N>, raw: &[u16; N], lo: usize, hi: usize) {
	let n = hi - lo;
	check!(it.len() == n, "the reported length is wrong");
	check!(it.size_hint() == (n, Some(n)), "the size hint is wrong");
	check!(it.as_slice().len() == n, "the view has another length");
	let k = up_to(N - 1);
	check!(k >= n || it.as_slice()[k] == raw[lo + k], "the view shows other elements");
}

/// An iterator in any state.
fn iter() -> (SizedIter<u16, N>, [u16; N], usize, usize) {
	let raw: [u16; N] = any();
	let len = up_to(N);
	let s: SizedSlice<u16, N> = unsafe { SizedSlice::from_raw_parts(raw.map(MaybeUninit::new), len) };
	let mut it = s.into_iter();
	at(&it, &raw, 0, len);
	let lo = up_to(len);
	let hi = up_to(len);
	assume(lo <= hi);
	let mut k = 0;
	while k < N {
		if k < lo { check!(it.next() == Some(raw[k]), "another element is taken from the front") }
		k += 1;
	}
	let mut k = N;
	while k > 0 {
		k -= 1;
		if k >= hi && k < len { check!(it.next_back() == Some(raw[k]), "another element is taken from the back") }
	}
	at(&it, &raw, lo, hi);
	(it, raw, lo, hi)
}

/// `it` holds exactly `raw[lo..hi]`; the bounds are concrete.
fn exactly<const C: usize>(it: &SizedIter<u16, C>, raw: &[u16; C], lo: usize, hi: usize) {
	check!(it.len() == hi - lo && it.size_hint() == (hi - lo, Some(hi - lo)), "the reported length is wrong");
	check!(it.as_slice().len() == hi - lo, "the view has another length");
	let mut k = lo;
	while k < hi {
		check!(it.as_slice()[k - lo] == raw[k], "the view shows other elements");
		k += 1;
	}
}

/// An iterator of `C` elements of which `lo` are taken from the front and all
/// but `hi` from the back.
fn taken<const C: usize>(raw: &[u16; C], lo: usize, hi: usize) -> SizedIter<u16, C> {
	let mut it = SizedSlice::<u16, C>::from(*raw).into_iter();
	let mut k = 0;
	while k < lo { check!(it.next() == Some(raw[k]), "another element is taken from the front"); k += 1; }
	let mut k = C;
	while k > hi { k -= 1; check!(it.next_back() == Some(raw[k]), "another element is taken from the back"); }
	exactly(&it, raw, lo, hi);
	it
}

/// Every operation on `C` elements, of which `lo..hi` remain.
fn long<const C: usize>(lo: usize, hi: usize) {
	let raw: [u16; C] = any();

	let mut it = taken(&raw, lo, hi);
	check!(it.next() == Some(raw[lo]), "another element is taken from the front");
	exactly(&it, &raw, lo + 1, hi);
	check!(it.next_back() == Some(raw[hi - 1]), "another element is taken from the back");
	exactly(&it, &raw, lo + 1, hi - 1);

	let mut c = it.clone();
	exactly(&c, &raw, lo + 1, hi - 1);
	check!(c.next() == Some(raw[lo + 1]), "another element is taken from the front");
	check!(c.next_back() == Some(raw[hi - 2]), "another element is taken from the back");
	exactly(&it, &raw, lo + 1, hi - 1);
	it.as_mut_slice()[0] ^= 1;
	check!(it.as_ref()[0] == raw[lo + 1] ^ 1, "a write through the view is lost");
	exactly(&c, &raw, lo + 2, hi - 2);

	let r: SizedSlice<u16, C> = c.collect();
	check!(r.len() == hi - lo - 4, "other elements are collected");
	let mut k = 0;
	while k < hi - lo - 4 { check!(r[k] == raw[lo + 2 + k], "other elements are collected"); k += 1; }
	check!(taken(&raw, lo, hi).count() == hi - lo, "another number of elements is counted");
	check!(taken(&raw, lo, hi).last() == Some(raw[hi - 1]), "another element is the last");
}

/// `C` elements taken one after another, by `back(k)` from which side; before
/// each, a clone is looked at, and so is another that goes on with one more.
fn walk<const C: usize>(back: impl Fn(usize) -> bool) {
	let raw: [u16; C] = any();
	let mut it = SizedSlice::<u16, C>::from(raw).into_iter();
	let (mut lo, mut hi) = (0, C);
	let mut k = 0;
	while k < C {
		let mut c = it.clone();
		exactly(&c, &raw, lo, hi);
		check!(c.next() == Some(raw[lo]), "another element is taken from the front of a clone");
		exactly(&c, &raw, lo + 1, hi);
		if back(k) {
			hi -= 1;
			check!(it.next_back() == Some(raw[hi]), "another element is taken from the back");
		} else {
			check!(it.next() == Some(raw[lo]), "another element is taken from the front");
			lo += 1;
		}
		exactly(&it, &raw, lo, hi);
		k += 1;
	}
	check!(it.next().is_none() && it.next_back().is_none(), "an exhausted iterator yields an element");
	let mut c = it.clone();
	exactly(&c, &raw, lo, lo);
	check!(c.next().is_none() && c.next_back().is_none(), "an exhausted iterator yields an element");
}

/// Skipping `n` of `C` elements, of which `lo..hi` remain.
fn skip<const C: usize>(lo: usize, hi: usize, n: usize) {
	let raw: [u16; C] = any();
	let mut it = taken(&raw, lo, hi);
	check!(it.nth(n) == if n < hi - lo { Some(raw[lo + n]) } else { None }, "skipping ahead returns another element");
	if n < hi - lo {
		// Known finding `nth`: the returned element may remain.
		let lo = if it.len() == hi - lo - n { lo + n } else { lo + n + 1 };
		exactly(&it, &raw, lo, hi);
		check!(it.next_back() == if lo < hi { Some(raw[hi - 1]) } else { None }, "another element is taken from the back");
	} else {
		exactly(&it, &raw, hi, hi);
		check!(it.next().is_none() && it.next_back().is_none(), "an exhausted iterator yields an element");
	}
}

harnesses! {
	/// next from any state, and once more
	fn next(6, 8) {
		let (mut it, raw, lo, hi) = iter();
		check!(it.next() == if lo < hi { Some(raw[lo]) } else { None }, "another element is taken from the front");
		let lo = if lo < hi { lo + 1 } else { lo };
		at(&it, &raw, lo, hi);
		check!(it.next() == if lo < hi { Some(raw[lo]) } else { None }, "another element is taken from the front");
		at(&it, &raw, if lo < hi { lo + 1 } else { lo }, hi);
		cover!(lo < hi && lo > 1, "in the middle");
		cover!(lo == hi && hi > 1, "exhausted");
	}

	/// next_back from any state, and once more
	fn next_back(6, 8) {
		let (mut it, raw, lo, hi) = iter();
		check!(it.next_back() == if lo < hi { Some(raw[hi - 1]) } else { None }, "another element is taken from the back");
		let hi = if lo < hi { hi - 1 } else { hi };
		at(&it, &raw, lo, hi);
		check!(it.next_back() == if lo < hi { Some(raw[hi - 1]) } else { None }, "another element is taken from the back");
		at(&it, &raw, lo, if lo < hi { hi - 1 } else { hi });
		cover!(lo < hi && lo > 0, "in the middle");
		cover!(lo == hi && hi > 1, "exhausted");
	}

	/// an exhausted iterator yields nothing, however it is asked
	fn fused(6, 8) {
		let (mut it, raw, lo, hi) = iter();
		assume(lo == hi);
		let mut k = 0;
		while k < 3 {
			match any::<u8>() {
				0 => check!(it.next().is_none(), "an exhausted iterator yields an element"),
				1 => check!(it.next_back().is_none(), "an exhausted iterator yields an element"),
				2 => check!(it.nth(any()).is_none(), "an exhausted iterator yields an element"),
				_ => check!(it.nth_back(up_to(N)).is_none(), "an exhausted iterator yields an element"),
			}
			at(&it, &raw, lo, hi);
			k += 1;
		}
		cover!(lo > 0 && lo < N, "exhausted in the middle");
	}

	/// nth from any state: the element n places ahead, and those before it are gone
	fn nth(6, 8) {
		let (mut it, raw, lo, hi) = iter();
		let n: usize = any();
		let got = it.nth(n);
		if n < hi - lo {
			check!(got == Some(raw[lo + n]), "skipping ahead returns another element");
			// Known finding `nth`: the returned element may remain.
			let lo = if it.len() == hi - lo - n { lo + n } else { lo + n + 1 };
			at(&it, &raw, lo, hi);
			cover!(n == 2 && lo + 1 == hi, "the last one");
		} else {
			check!(got.is_none(), "skipping ahead too far returns an element");
			at(&it, &raw, hi, hi);
			cover!(n == hi - lo && n > 1, "one too many");
			cover!(n == usize::MAX && lo > 0, "huge");
		}
	}

	/// nth removes the element it returns
	fn nth_kf(6, 8) {
		let (mut it, raw, lo, hi) = iter();
		let n: usize = any();
		assume(n < hi - lo);
		let _ = it.nth(n);
		check!(it.len() == hi - lo - n - 1, "the element returned when skipping ahead remains");
	}

	/// nth_back from any state
	fn nth_back(6, 8) {
		let (mut it, raw, lo, hi) = iter();
		let n = up_to(N + 1);
		let got = it.nth_back(n);
		if n < hi - lo {
			check!(got == Some(raw[hi - 1 - n]), "skipping from the back returns another element");
			at(&it, &raw, lo, hi - 1 - n);
			cover!(n == 1 && lo > 0, "skipped");
		} else {
			check!(got.is_none(), "skipping from the back too far returns an element");
			at(&it, &raw, lo, lo);
		}
	}

	/// any operations in a row agree with a queue
	fn sequence(6, 8) {
		let (mut it, raw, mut lo, mut hi) = iter();
		let mut k = 0;
		while k < STEPS {
			match any::<u8>() {
				0 => {
					check!(it.next() == if lo < hi { Some(raw[lo]) } else { None }, "another element is taken from the front");
					if lo < hi { lo += 1 }
				}
				1 => {
					check!(it.next_back() == if lo < hi { Some(raw[hi - 1]) } else { None }, "another element is taken from the back");
					if lo < hi { hi -= 1 }
				}
				2 => {
					let n = up_to(N);
					let got = it.nth(n);
					if n < hi - lo {
						check!(got == Some(raw[lo + n]), "skipping ahead returns another element");
						// Known finding `nth`: the returned element may remain.
						lo = if it.len() == hi - lo - n { lo + n } else { lo + n + 1 };
					} else {
						check!(got.is_none(), "skipping ahead too far returns an element");
						lo = hi;
					}
				}
				_ => it = it.clone(),
			}
			at(&it, &raw, lo, hi);
			k += 1;
		}
		cover!(lo == 1 && hi == 2, "one left");
	}

	/// what is left is counted, found last, and collected exactly
	fn rest(6, 8) {
		let (it, raw, lo, hi) = iter();
		match any::<u8>() {
			0 => check!(it.count() == hi - lo, "another number of elements is counted"),
			1 => check!(it.last() == if lo < hi { Some(raw[hi - 1]) } else { None }, "another element is the last"),
			2 => {
				let c: SizedSlice<u16, N> = it.collect();
				check!(c.len() == hi - lo, "other elements are collected");
				let k = up_to(N - 1);
				check!(k >= hi - lo || c[k] == raw[lo + k], "other elements are collected");
			}
			_ => {
				let c: SizedSlice<u16, N> = it.rev().collect();
				check!(c.len() == hi - lo, "other elements are collected");
				let k = up_to(N - 1);
				check!(k >= hi - lo || c[k] == raw[hi - 1 - k], "other elements are collected");
				cover!(hi - lo == 3 && lo == 1, "reversed");
			}
		}
	}

	/// a clone in any state is the same queue, and independent
	fn clone(6, 8) {
		let (mut it, raw, lo, hi) = iter();
		let mut c = it.clone();
		at(&c, &raw, lo, hi);
		at(&it, &raw, lo, hi);
		check!(it.next() == if lo < hi { Some(raw[lo]) } else { None }, "another element is taken from the front");
		at(&c, &raw, lo, hi);
		check!(c.next_back() == if lo < hi { Some(raw[hi - 1]) } else { None }, "another element is taken from the back");
		at(&it, &raw, if lo < hi { lo + 1 } else { lo }, hi);
		at(&c, &raw, lo, if lo < hi { hi - 1 } else { hi });
		cover!(hi - lo == 2 && lo == 1, "in the middle");
	}

	/// the views show what remains, and writes through them are taken out
	fn views(6, 8) {
		let (mut it, mut raw, lo, hi) = iter();
		let n = hi - lo;
		let r: &[u16] = it.as_ref();
		check!(r.len() == n && r.as_ptr() == it.as_slice().as_ptr(), "the view shows other elements");
		let (k, to) = (up_to(N - 1), any::<u16>());
		let v: &mut [u16] = if any() { it.as_mut_slice() } else { it.as_mut() };
		check!(v.len() == n, "the view has another length");
		if k < n {
			check!(v[k] == raw[lo + k], "the view shows other elements");
			v[k] = to;
			raw[lo + k] = to;
		}
		at(&it, &raw, lo, hi);
		check!(it.next() == if lo < hi { Some(raw[lo]) } else { None }, "a write through the view is lost");
		check!(it.next_back() == if lo + 1 < hi { Some(raw[hi - 1]) } else { None }, "a write through the view is lost");
		cover!(lo == 1 && n == 3 && k == 2, "in the middle");
	}

	/// elements without size, and no capacity
	fn units(6, 6) {
		let mut s = SizedSlice::from([(), (), ()]);
		let len = up_to(3);
		unsafe { s.set_len(len) };
		let mut it = s.into_iter();
		let mut left = len;
		let mut k = 0;
		while k < 4 {
			check!(it.len() == left && it.as_slice().len() == left, "the reported length is wrong");
			let got = if any() { it.next() } else { it.next_back() };
			check!(got.is_some() == (left > 0), "an element is missing or there is one too many");
			if left > 0 { left -= 1 }
			k += 1;
		}
		let mut it = SizedSlice::<u32, 0>::default().into_iter();
		check!(it.len() == 0 && it.next().is_none() && it.next_back().is_none() && it.nth(any()).is_none(), "an element too many");
		check!(it.clone().next().is_none(), "an element too many");
	}

	/// all operations on elements 1 to 9 of 9
	fn long_9_1(12, 12) { long::<9>(1, 9); }

	/// all operations on elements 7 to 15 of 17
	fn long_17_7(20, 20) { long::<17>(7, 15); }

	/// all operations on elements 0 to 20 of 20
	fn long_20_0(23, 23) { long::<20>(0, 20); }

	/// all operations on elements 9 to 17 of 20
	fn long_20_9(23, 23) { long::<20>(9, 17); }

	/// all operations on elements 16 to 31 of 33
	fn long_33_16(36, 36) { long::<33>(16, 31); }

	/// skipping 8 of elements 0 to 9 of 9
	fn skip_9_8(12, 12) { skip::<9>(0, 9, 8); }

	/// skipping 9 of elements 1 to 16 of 17
	fn skip_17_9(20, 20) { skip::<17>(1, 16, 9); }

	/// skipping 11 of elements 8 to 20 of 20
	fn skip_20_11(23, 23) { skip::<20>(8, 20, 11); }

	/// skipping 12 of elements 8 to 20 of 20
	fn skip_20_12(23, 23) { skip::<20>(8, 20, 12); }

	/// skipping 17 of elements 0 to 32 of 33
	fn skip_33_17(36, 36) { skip::<33>(0, 32, 17); }

	/// skipping 300 of elements 16 to 30 of 33
	fn skip_33_300(36, 36) { skip::<33>(16, 30, 300); }

	/// 9 elements taken from the front, with clones of every state
	fn walk_9(12, 12) { walk::<9>(|_| false); }

	/// 9 elements taken from the back, with clones of every state
	fn walk_9_back(12, 12) { walk::<9>(|_| true); }

	/// 17 elements taken from the front, with clones of every state
	fn walk_17(20, 20) { walk::<17>(|_| false); }

	/// 18 elements taken from both sides, with clones of every state
	fn walk_18_both(21, 21) { walk::<18>(|k| k % 2 == 1); }

	/// 12 elements taken from both sides, two from each, with clones of every state
	fn walk_12_both(15, 15) { walk::<12>(|k| k & 2 == 2); }
}
