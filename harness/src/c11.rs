//! C11: a slot holds exactly the last successful encoding.
use crate::groups::prelude::*;
use oct::Slot;
use std::borrow::{Borrow, BorrowMut};

const N: usize = if cfg!(feature = "thorough") { 24 } else { 12 };

fn up_to(max: usize) -> usize {
	let n: usize = any();
	assume(n <= max);
	n
}

fn sized<T>(s: &Slot<T>, cap: usize, len: usize) {
	check!(s.capacity() == cap, "the capacity changed");
	check!(s.len() == len, "the length is wrong");
	check!(len <= cap, "the length exceeds the capacity");
	check!(s.is_empty() == (len == 0), "is_empty is wrong");
	check!(s.is_full() == (len == cap), "is_full is wrong");
	check!(s.as_slice().len() == len, "as_slice has another length");
	check!(s.as_slice().as_ptr() == s.as_ptr(), "as_slice is elsewhere");
}

/// A slot of capacity `N` with arbitrary octets and length.
fn slot<T>(raw: &[u8; N]) -> (Slot<T>, usize) {
	let len = up_to(N);
	let mut s = Slot::with_capacity(N);
	sized(&s, N, 0);
	s.copy_from_slice(raw);
	sized(&s, N, N);
	s.set_len(len);
	sized(&s, N, len);
	(s, len)
}

/// Every encoding of `T` fits, is held exactly, and is read back.
fn holds<T: Ty + Decode + SizedEncode>() {
	let v = T::arb();
	let mut want = [0u8; CAP];
	let n = enc(&v, &mut want);

	let mut s = Slot::<T>::new();
	sized(&s, T::MAX_ENCODED_SIZE, 0);
	check!(is_ok(&s.write(&v)), "a slot does not hold an encoding of its type");
	sized(&s, T::MAX_ENCODED_SIZE, n);

	let at = up_to(CAP - 1);
	check!(at >= n || s.as_slice()[at] == want[at], "the slot holds another encoding");
	match s.read() {
		Ok(back) => {
			check!(v.same(&back), "another value is read back");
			std::mem::forget(back);
			cover!(true, "read back");
		}
		Err(_) => check!(false, "the slot cannot be read"),
	}
	sized(&s, T::MAX_ENCODED_SIZE, n);
	std::mem::forget((s, v));
}

harnesses! {
	/// a new slot is empty and all its octets are zero, for any capacity up to 70000
	fn fresh(10, 16) {
		let cap = up_to(70000);
		let mut s = Slot::<u32>::with_capacity(cap);
		sized(&s, cap, 0);
		check!(s.as_mut_slice().len() == cap, "the mutable view does not cover the capacity");
		let at = up_to(70000);
		if at < cap {
			check!(s.as_mut_slice()[at] == 0, "a new slot is not zero");
			cover!(at > 65536, "far octet");
		}
		s.set_len(cap);
		sized(&s, cap, cap);
		if at < cap {
			check!(s.as_slice()[at] == 0, "a new slot is not zero");
		}
		cover!(cap == 0, "no capacity");
	}

	/// new and default slots have the declared maximum size as capacity
	fn declared(10, 16) {
		macro_rules! one {
			($($t:ty),*) => { $(
				let mut s = Slot::<$t>::new();
				sized(&s, <$t>::MAX_ENCODED_SIZE, 0);
				let d = Slot::<$t>::default();
				sized(&d, <$t>::MAX_ENCODED_SIZE, 0);
				let at = up_to(63);
				if at < <$t>::MAX_ENCODED_SIZE {
					check!(s.as_mut_slice()[at] == 0, "a new slot is not zero");
				}
			)* };
		}
		one!((), u8, u128, Option<u64>, [u16; 3], SizedStr<5>, SizedSlice<u32, 3>, Result<u8, u32>, Duration, usize);
	}

	/// u8, i32, u128
	fn holds_numbers(26, 32) { holds::<u8>(); holds::<i32>(); holds::<u128>(); }

	/// char, bool, f64
	fn holds_scalars(26, 32) { holds::<char>(); holds::<bool>(); holds::<f64>(); }

	/// Option<u16>, Bound<u32>
	fn holds_tagged(26, 32) { holds::<Option<u16>>(); holds::<Bound<u32>>(); }

	/// Result<u8, u32>
	fn holds_result(26, 32) { holds::<Result<u8, u32>>(); }

	/// (u8, u64), [i16; 2]
	fn holds_composite(26, 32) { holds::<(u8, u64)>(); holds::<[i16; 2]>(); }

	/// (), SocketAddr
	fn holds_others(26, 32) { holds::<()>(); holds::<SocketAddr>(); }

	/// SizedSlice<u16, 3>
	fn holds_slice(12, 18) { holds::<SizedSlice<u16, 3>>(); }

	/// SizedStr<4> of 2 octets, SizedStr<3> of 3 octets
	fn holds_text(12, 18) { holds::<SText<2, 4>>(); holds::<SText<3, 3>>(); }

	/// two writes of encodings of different lengths: only the last one is seen
	fn overwrite(14, 20) {
		let raw: [u8; N] = any();
		let (mut s, _) = slot::<Option<u32>>(&raw);
		let (a, b): (Option<u32>, Option<u32>) = (Ty::arb(), Ty::arb());

		check!(is_ok(&s.write(a)), "writing fails");
		sized(&s, N, if a.is_some() { 5 } else { 1 });
		check!(s.read().ok() == Some(a), "another value is read back");

		check!(is_ok(&s.write(&b)), "writing fails");
		let n = if b.is_some() { 5 } else { 1 };
		sized(&s, N, n);
		check!(s.read().ok() == Some(b), "another value is read back");

		let mut want = [0u8; 5];
		enc(&b, &mut want);
		let at = up_to(4);
		check!(at >= n || s.as_slice()[at] == want[at], "the slot holds another encoding");

		// The rest of the buffer is not part of the encoding.
		let mut all = raw;
		if let Some(v) = a {
			all[1..5].copy_from_slice(&v.to_le_bytes());
		}
		all[0] = a.is_some() as u8;
		all[..n].copy_from_slice(&want[..n]);
		let at = up_to(N - 1);
		check!(s.as_mut_slice()[at] == all[at], "octets outside of the encoding changed");
		cover!(a.is_some() && b.is_none(), "a shorter encoding");
		cover!(a.is_none() && b.is_some(), "a longer encoding");
	}

	/// values are accepted owned and borrowed
	fn borrowed(14, 20) {
		let v: u32 = any();
		let mut s = Slot::<u32>::new();
		check!(is_ok(&s.write(v)), "writing fails");
		check!(s == v.to_le_bytes()[..], "the slot holds another encoding");
		let w: u32 = any();
		check!(is_ok(&s.write(&w)), "writing fails");
		check!(s == w.to_le_bytes()[..], "the slot holds another encoding");
		let b = Box::new(v);
		check!(is_ok(&s.write(b)), "writing fails");
		check!(s == v.to_le_bytes()[..], "the slot holds another encoding");
		cover!(v != w, "written");
	}

	/// a refused value leaves the length and the capacity as they were
	fn refused(14, 20) {
		let raw: [u8; N] = any();
		let (mut s, len) = slot::<usize>(&raw);
		let v: usize = any();
		match s.write(v) {
			Ok(()) => {
				check!(v <= 0xFFFF, "a number beyond 16 bits is accepted");
				sized(&s, N, 2);
				check!(s.read().ok() == Some(v), "another value is read back");
				cover!(v > 255, "written");
			}
			Err(e) => {
				check!(v > 0xFFFF && e.0 == v, "a number of 16 bits is refused");
				sized(&s, N, len);
				let at = up_to(N - 1);
				check!(at >= len || s.as_slice()[at] == raw[at], "a refused write changes the contents");
				cover!(len > 2, "refused");
			}
		}
	}

	/// a refusal in the middle of a composite leaves the length as it was
	fn refused_late(14, 20) {
		let raw: [u8; N] = any();
		let (mut s, len) = slot::<(usize, usize)>(&raw);
		let v: (usize, usize) = (any(), any());
		assume(v.0 <= 0xFFFF);
		let r = s.write(v);
		check!(is_ok(&r) == (v.1 <= 0xFFFF), "a write succeeds or fails wrongly");
		sized(&s, N, if is_ok(&r) { 4 } else { len });
		std::mem::forget(r);
		cover!(v.1 > 0xFFFF && len == 5, "refused");
	}

	/// a borrowed cell is refused and leaves the slot as it was
	fn refused_cell(14, 20) {
		let raw: [u8; N] = any();
		let (mut s, len) = slot::<RefCell<u32>>(&raw);
		let v = RefCell::new(any::<u32>());
		let guard = v.borrow_mut();
		check!(!is_ok(&s.write(&v)), "a borrowed cell is accepted");
		sized(&s, N, len);
		let at = up_to(N - 1);
		check!(at >= len || s.as_slice()[at] == raw[at], "a refused write changes the contents");
		drop(guard);
		check!(is_ok(&s.write(&v)), "a cell is refused");
		sized(&s, N, 4);
		cover!(len == 5, "written after a refusal");
	}

	/// a slot too small for the value: no success, and no length beyond the capacity
	fn too_small_pn(14, 20) {
		let cap = up_to(7);
		let mut s = Slot::<u64>::with_capacity(cap);
		cover!(cap == 7, "one octet short");
		must_panic!(|| { let r = s.write(any::<u64>()); std::mem::forget(r); }, "a value is written beyond the capacity");
	}

	/// reading sees only the octets up to the length
	fn stale_pn(14, 20) {
		let raw: [u8; N] = any();
		let (s, len) = slot::<u32>(&raw);
		assume(len < 4);
		cover!(len == 3, "one octet short");
		must_panic!(|| std::mem::forget(s.read()), "octets beyond the length are read");
	}

	/// reading decodes exactly the octets up to the length
	fn read(14, 20) {
		let raw: [u8; N] = any();
		let (s, len) = slot::<u32>(&raw);
		assume(len >= 4);
		check!(s.read().ok() == Some(u32::from_le_bytes([raw[0], raw[1], raw[2], raw[3]])), "another value is read");
		sized(&s, N, len);
		cover!(len == 4, "read");
		cover!(len == 6, "read with octets to spare");
	}

	/// reading passes errors on and leaves the slot as it was
	fn read_error(14, 20) {
		let raw: [u8; N] = any();
		let (s, len) = slot::<char>(&raw);
		assume(len >= 4);
		let code = u32::from_le_bytes([raw[0], raw[1], raw[2], raw[3]]);
		match s.read() {
			Ok(c) => {
				check!(c as u32 == code, "another value is read");
				cover!(code > 0xFFFF, "read");
			}
			Err(e) => {
				check!(e.code_point == code && char::from_u32(code).is_none(), "a valid value is refused");
				cover!(code == 0xD800, "refused");
			}
		}
		sized(&s, N, len);
		let at = up_to(N - 1);
		check!(at >= len || s.as_slice()[at] == raw[at], "reading changes the slot");
	}

	/// copying in holds exactly the data and nothing else changes
	fn copy(14, 20) {
		let raw: [u8; N] = any();
		let (mut s, _) = slot::<u32>(&raw);
		let data: [u8; N] = any();
		let n = up_to(N);
		s.copy_from_slice(&data[..n]);
		sized(&s, N, n);
		let at = up_to(N - 1);
		check!(at >= n || s.as_slice()[at] == data[at], "other octets are copied");
		check!(s.as_mut_slice()[at] == if at < n { data[at] } else { raw[at] }, "octets beyond the data changed");
		cover!(n == N, "filled");
		cover!(n == 0, "emptied");
	}

	/// copying in more than the capacity panics
	fn copy_pn(14, 20) {
		let cap = up_to(N);
		let mut s = Slot::<u32>::with_capacity(cap);
		let data = [1u8; 2 * N];
		let n = up_to(2 * N);
		assume(n > cap);
		cover!(n == cap + 1, "one too many");
		must_panic!(|| s.copy_from_slice(&data[..n]), "more is copied than the capacity");
	}

	/// setting a length beyond the capacity panics
	fn set_len_pn(14, 20) {
		let raw: [u8; N] = any();
		let (mut s, _) = slot::<u32>(&raw);
		let n: usize = any();
		assume(n > N);
		cover!(n == N + 1, "one too many");
		cover!(n == usize::MAX, "huge");
		must_panic!(|| s.set_len(n), "the length is set beyond the capacity");
	}

	/// setting a length shows exactly that many octets
	fn set_len(14, 20) {
		let raw: [u8; N] = any();
		let (mut s, _) = slot::<u32>(&raw);
		let n = up_to(N);
		if any() {
			s.set_len(n);
		} else {
			unsafe { s.set_len_unchecked(n) };
		}
		sized(&s, N, n);
		let at = up_to(N - 1);
		check!(at >= n || s.as_slice()[at] == raw[at], "the contents changed");
		cover!(n == N, "full");
		cover!(n == 0, "empty");
	}

	/// all shared views show the octets up to the length
	fn views(14, 20) {
		let raw: [u8; N] = any();
		let (s, len) = slot::<u32>(&raw);
		let at = up_to(N - 1);
		macro_rules! same {
			($v:expr) => {
				let v: &[u8] = $v;
				check!(v.len() == len && v.as_ptr() == s.as_ptr(), "a view shows other octets");
				check!(at >= len || v[at] == raw[at], "a view shows other octets");
			};
		}
		same!(s.as_slice());
		same!(&s);
		same!(&*s);
		same!(s.as_ref());
		same!(Borrow::<[u8]>::borrow(&s));
		same!(&s[..]);
		check!(at >= len || s[at] == raw[at], "indexing shows other octets");
		check!(unsafe { *s.as_ptr().add(at) } == raw[at], "the pointer shows other octets");

		let (a, b) = (up_to(N), up_to(N));
		if a <= b && b <= len {
			let part = &s[a..b];
			check!(part.len() == b - a, "an indexed part has another length");
			check!(at >= part.len() || part[at] == raw[a + at], "an indexed part is elsewhere");
			check!(s[a..].len() == len - a && s[..b].len() == b, "an indexed part has another length");
			cover!(b - a == 2, "part");
		}
		cover!(len == N, "full");
	}

	/// indexing beyond the length panics
	fn index_pn(14, 20) {
		let raw: [u8; N] = any();
		let (s, len) = slot::<u32>(&raw);
		let at: usize = any();
		assume(at >= len);
		cover!(at == len, "the next octet");
		must_panic!(|| { let _ = s[at]; }, "an octet beyond the length is shown");
	}

	/// indexing a range beyond the length panics
	fn index_range_pn(14, 20) {
		let raw: [u8; N] = any();
		let (s, len) = slot::<u32>(&raw);
		let (a, b): (usize, usize) = (any(), any());
		assume(b > len || a > b);
		cover!(b == len + 1 && a == 0, "one too many");
		must_panic!(|| { let _ = &s[a..b]; }, "octets beyond the length are shown");
	}

	/// all mutable views cover the whole buffer, and writes through them are seen
	fn mutable(14, 20) {
		let raw: [u8; N] = any();
		let (mut s, len) = slot::<u32>(&raw);
		let (at, to) = (up_to(N - 1), any::<u8>());
		let which: u8 = any();
		match which {
			0 => { check!(s.as_mut_slice().len() == N, "a mutable view does not cover the capacity"); s.as_mut_slice()[at] = to }
			1 => { let v: &mut [u8] = s.as_mut(); check!(v.len() == N, "a mutable view does not cover the capacity"); v[at] = to }
			2 => { let v: &mut [u8] = s.borrow_mut(); check!(v.len() == N, "a mutable view does not cover the capacity"); v[at] = to }
			3 => { let v: &mut [u8] = &mut s; check!(v.len() == N, "a mutable view does not cover the capacity"); v[at] = to }
			4 => s[at] = to,
			5 => s[at..][0] = to,
			_ => unsafe { *s.as_mut_ptr().add(at) = to },
		}
		sized(&s, N, len);
		let k = up_to(N - 1);
		let want = if k == at { to } else { raw[k] };
		check!(k >= len || s.as_slice()[k] == want, "a write through a view is lost");
		check!(s.as_mut_slice()[k] == want, "a write through a view is lost");
		cover!(at >= len, "beyond the length");
		cover!(which == 4 && at < len, "indexed");
	}

	/// comparisons are those of the octets up to the length
	fn compare(14, 20) {
		let raw: [u8; N] = any();
		let (s, len) = slot::<u32>(&raw);
		let other: [u8; N] = any();
		let n = up_to(N);
		let mut want = n == len;
		let mut k = 0;
		while k < N {
			if k < len && k < n && raw[k] != other[k] {
				want = false;
			}
			k += 1;
		}
		let mut o2 = other;
		check!((s == other[..n]) == want, "comparing with a slice is wrong");
		check!((s == &other[..n]) == want, "comparing with a reference is wrong");
		check!((s == &mut o2[..n]) == want, "comparing with a mutable reference is wrong");
		check!((s != other[..n]) != want, "comparing with a slice is wrong");
		cover!(want && len == N - 1, "equal");
		cover!(!want && len == n && len == 2, "different octets");
	}

	/// a slot made from raw parts holds them; nothing is lost or freed twice
	fn raw_parts(14, 20) {
		let raw: [u8; N] = any();
		let len = up_to(N);
		let b: Box<[u8]> = Box::new(raw);
		let p = Box::into_raw(b).cast::<u8>();
		let mut s = unsafe { Slot::<u32>::from_raw_parts(p, N, len) };
		sized(&s, N, len);
		check!(s.as_ptr() == p.cast_const() && s.as_mut_ptr() == p, "the slot is elsewhere");
		let at = up_to(N - 1);
		check!(s.as_mut_slice()[at] == raw[at], "the slot holds other octets");
		check!(at >= len || s.as_slice()[at] == raw[at], "the slot holds other octets");
		if len >= 4 {
			check!(s.read().ok() == Some(u32::from_le_bytes([raw[0], raw[1], raw[2], raw[3]])), "another value is read");
		}
		drop(s);
		cover!(len == N, "full");
	}
}
