//! C02: collections and strings survive an encode/decode round trip.
use crate::groups::prelude::*;
use crate::many::*;
use std::collections::{HashMap, HashSet};
use std::ffi::CString;

fn round_trip<T: Ty + Encode + Decode>() {
	let v = T::arb();
	let mut buf = [0u8; CAP];

	let n = enc(&v, &mut buf);
	let (r, m) = dec::<T>(&buf[..n]);

	check!(is_ok(&r), "decoding the encoding of a value fails");
	check!(m == n, "decoding does not consume exactly the encoding");
	check!(ok(r).same(&v), "the decoded value differs");
	cover!(true, "round trip completed");
}

/// Text of `N` octets, all the same but for one; `M` is `N + 3`.
fn decode_text<T: Decode, const N: usize, const M: usize>(octet: impl FnOnce(&T, usize) -> u8, len: impl FnOnce(&T) -> usize) {
	let at: usize = any();
	assume(at < N);
	let mut raw = [b'x'; M];
	raw[0] = N as u8;
	raw[1] = (N >> 8) as u8;
	let c: u8 = any();
	assume(c != 0 && c < 128);
	raw[2 + at] = c;
	let (r, m) = dec::<T>(&raw);
	check!(is_ok(&r), "text is rejected");
	let v = ok(r);
	check!(m == 2 + N, "another number of octets is consumed");
	check!(len(&v) == N, "another number of octets is decoded");
	check!(octet(&v, at) == raw[2 + at], "another text is decoded");
	cover!(true, "decoded");
	std::mem::forget(v);
}

type Map = HashMap<u8, u16, B>;
type Set = HashSet<u16, B>;

coll_groups!(round_trip,
	/// Vec of every announced length
	fn many_vec(5, 5) {
		decode_many::<Vec<Stop>>(any_count(), Vec::len);
	}

	/// LinkedList of every announced length
	fn many_list(5, 5) {
		decode_many::<LinkedList<Stop>>(any_count(), LinkedList::len);
	}

	/// SizedSlice of every announced length
	fn many_sized(5, 5) {
		decode_many::<SizedSlice<Stop, 65535>>(any_count(), |v| v.len());
	}

	/// boxed and counted slices, and borrowed-or-owned ones, of every announced length
	fn many_boxed(5, 5) {
		decode_many::<Box<Vec<Stop>>>(any_count(), |v| v.len());
	}

	/// Vec of 1030 elements (2060 in the thorough tier)
	fn long_vec_nt(1032, 2062) { decode_long::<Vec<Nth>>(2, |v| nths(v)); }

	/// String of 300 octets of ASCII
	@ascii fn many_text(5, 5) {
		decode_text::<String, 300, 303>(|s, i| s.as_bytes()[i], String::len);
	}

	/// SizedStr of 300 octets of ASCII
	@ascii fn many_sized_text(5, 5) {
		decode_text::<SizedStr<310>, 300, 303>(|s, i| s.as_bytes()[i], |s| s.len());
	}

	/// HashMap that announces 257 elements
	fn many_map(5, 5) {
		decode_many::<HashMap<Stop, (), B>>(257, HashMap::len);
	}

	/// HashSet of 1 element
	fn set_1(5, 5) {
		let mut v = Set::with_capacity_and_hasher(1, B::default());
		let key = any();
		v.insert(key);
		let mut buf = [0u8; 8];
		let n = enc(&v, &mut buf);
		let (r, m) = dec::<Set>(&buf[..n]);
		check!(is_ok(&r), "decoding the encoding of a value fails");
		check!(m == n, "decoding does not consume exactly the encoding");
		let w = ok(r);
		check!(w.len() == 1, "another number of elements is decoded");
		check!(w.contains(&key), "the decoded value differs");
		std::mem::forget((v, w));
	}

	/// HashMap of 1 element
	fn map_1(5, 5) {
		let mut v = Map::with_capacity_and_hasher(1, B::default());
		let (key, value) = (any(), any());
		v.insert(key, value);
		let mut buf = [0u8; 8];
		let n = enc(&v, &mut buf);
		let (r, m) = dec::<Map>(&buf[..n]);
		check!(is_ok(&r), "decoding the encoding of a value fails");
		check!(m == n, "decoding does not consume exactly the encoding");
		let w = ok(r);
		check!(w.len() == 1, "another number of elements is decoded");
		check!(w.get(&key) == Some(&value), "the decoded value differs");
		std::mem::forget((v, w));
	}
);

