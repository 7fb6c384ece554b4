//! C03: encodings are byte-for-byte the documented wire format.
use crate::groups::prelude::*;
use crate::many::*;
use std::collections::{HashMap, HashSet};
use std::ffi::CStr;

fn format<T: Ty + Encode>() {
	let v = T::arb();
	let mut buf = [0u8; CAP];
	let n = enc(&v, &mut buf);

	let mut w = W::new(&buf);
	v.wire(&mut w);
	check!(n == w.n, "the encoding has the wrong length");
	check!(w.same, "the encoding has wrong octets");
	cover!(true, "encoded");
}

/// Text of `N` octets, all the same but for one; `M` is `N + 3`.
fn text<const N: usize, const M: usize>(encode: impl FnOnce(&[u8], &mut Output) -> bool) {
	let at: usize = any();
	assume(at < N);
	let c: u8 = any();
	assume(c != 0 && c < 128);
	let mut octets = [b'x'; N];
	octets[at] = c;
	let mut buf = [0u8; M];
	let mut o = Output::new(&mut buf);
	check!(encode(&octets, &mut o), "text within the limits is refused");
	check!(o.position() == 2 + N, "the encoding has the wrong length");
	check!(buf[0] == N as u8 && buf[1] == (N >> 8) as u8, "the text is not preceded by its length");
	check!(buf[2 + at] == c, "the encoding has wrong octets");
	cover!(true, "long text is encoded");
}

fn done<T, E>(r: Result<T, E>) -> bool {
	let ok = is_ok(&r);
	std::mem::forget(r);
	ok
}

all_groups!(format,
	/// slices and vectors of every length
	fn many_vec(5, 5) {
		let n = any_count();
		encode_many(&stops(n), n);
		encode_many(&stops(n)[..], n);
	}

	/// boxed, counted, borrowed and locked slices of every length
	fn many_boxed(5, 5) {
		let n = any_count();
		encode_many(&stops(n).into_boxed_slice(), n);
		encode_many(&Cow::Borrowed(&stops(n)[..]), n);
		encode_many(&Rc::<[Stop]>::from(stops(n)), n);
	}

	/// SizedSlice of every length
	fn many_sized(5, 5) {
		let n = any_count();
		let mut v: SizedSlice<Stop, 65535> = SizedSlice::default();
		// SAFETY: The elements have no size.
		unsafe { v.set_len(n) };
		encode_many(&v, n);
	}

	/// str of 70 octets (thorough: 300)
	fn many_text(74, 304) {
		const N: usize = if cfg!(feature = "thorough") { 300 } else { 70 };
		text::<N, { N + 3 }>(|b, o| done(unsafe { std::str::from_utf8_unchecked(b) }.encode(o)));
	}

	/// SizedStr of 70 octets (thorough: 300)
	fn many_sized_text(74, 304) {
		const N: usize = if cfg!(feature = "thorough") { 300 } else { 70 };
		text::<N, { N + 3 }>(|b, o| {
			let mut raw = [b'x'; N + 3];
			raw[..N].copy_from_slice(b);
			let v: SizedStr<{ N + 3 }> = unsafe { SizedStr::from_raw_parts(raw, N) };
			done(v.encode(o))
		});
	}

	/// HashMap of 1 element
	fn map_1(5, 5) {
		let mut v = HashMap::<u8, u16, B>::with_capacity_and_hasher(1, B::default());
		let (key, value): (u8, u16) = (any(), any());
		v.insert(key, value);
		let mut buf = [0u8; 8];
		let n = enc(&v, &mut buf);
		check!(n == 5, "the encoding has the wrong length");
		check!(buf[0] == 1 && buf[1] == 0, "the entries are not preceded by their number");
		check!(buf[2] == key && buf[3] == value as u8 && buf[4] == (value >> 8) as u8, "the encoding has wrong octets");
		std::mem::forget(v);
	}

	/// HashSet of 1 element
	fn set_1(5, 5) {
		let mut v = HashSet::<u16, B>::with_capacity_and_hasher(1, B::default());
		let key: u16 = any();
		v.insert(key);
		let mut buf = [0u8; 8];
		let n = enc(&v, &mut buf);
		check!(n == 4, "the encoding has the wrong length");
		check!(buf[0] == 1 && buf[1] == 0, "the elements are not preceded by their number");
		check!(buf[2] == key as u8 && buf[3] == (key >> 8) as u8, "the encoding has wrong octets");
		std::mem::forget(v);
	}


	/// PhantomPinned
	fn pinned(6, 6) {
		format::<PhantomPinned>();
	}
);
