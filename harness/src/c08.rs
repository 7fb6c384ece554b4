//! C08: byte streams keep exact cursor accounting.
use crate::groups::prelude::*;
use oct::error::{InputError, OutputError};
use std::borrow::Borrow;

/// Capacity of the streams.
const N: usize = if cfg!(feature = "thorough") { 40 } else { 24 };

fn up_to(max: usize) -> usize {
	let n: usize = any();
	assume(n <= max);
	n
}

/// An input of arbitrary octets, capacity and position.
fn input(raw: &[u8; N]) -> (Input<'_>, usize, usize) {
	let cap = up_to(N);
	let pos = up_to(cap);
	let mut i = Input::new(&raw[..cap]);
	check!(i.position() == 0 && i.remaining() == cap && i.capacity() == cap, "a new input is not at its start");
	check!(is_ok(&i.read(pos)), "reading within the capacity fails");
	input_at(&i, cap, pos);
	(i, cap, pos)
}

fn input_at(i: &Input, cap: usize, pos: usize) {
	check!(i.capacity() == cap, "the capacity changed");
	check!(i.position() == pos, "the position is wrong");
	check!(i.remaining() == cap - pos, "the remaining count is wrong");
}

fn output_at(o: &Output, cap: usize, pos: usize) {
	check!(o.capacity() == cap, "the capacity changed");
	check!(o.position() == pos, "the position is wrong");
	check!(o.remaining() == cap - pos, "the remaining count is wrong");
	check!(o.as_slice().len() == pos, "the written octets have the wrong length");
}

/// More octets than any 16-bit number.
static BIG: [u8; 70000] = [7; 70000];

/// Reading `L` octets by both functions after `P` others, out of `P + L + S`;
/// then one more than are left.
fn long_read<const P: usize, const L: usize, const S: usize>() {
	let first: [u8; P] = any();
	let data: [u8; L] = any();
	let last: [u8; S] = any();
	let mut raw = Vec::with_capacity(P + L + S);
	raw.extend_from_slice(&first);
	raw.extend_from_slice(&data);
	raw.extend_from_slice(&last);
	let cap = P + L + S;

	let mut i = Input::new(&raw);
	let f = ok(i.read(P));
	check!(f.len() == P && f == first, "other octets are read");
	input_at(&i, cap, P);
	let d = ok(i.read(L));
	check!(d.len() == L && d == data, "other octets are read");
	input_at(&i, cap, P + L);
	check!(matches!(i.read(S + 1), Err(InputError { capacity, position, count })
		if capacity == cap && position == P + L && count == S + 1), "the error is wrong");
	input_at(&i, cap, P + L);
	let l = ok(i.read(S));
	check!(l.len() == S && l == last, "other octets are read");
	input_at(&i, cap, cap);

	let mut i = Input::new(&raw);
	let mut f: [u8; P] = any();
	check!(is_ok(&i.read_into(&mut f)), "reading what remains fails");
	check!(f == first, "other octets are read");
	let mut d: [u8; L] = any();
	check!(is_ok(&i.read_into(&mut d)), "reading what remains fails");
	check!(d == data, "other octets are read");
	input_at(&i, cap, P + L);
	let before: [u8; L] = any();
	if S < L {
		let mut d = before;
		check!(matches!(i.read_into(&mut d), Err(InputError { capacity, position, count })
			if capacity == cap && position == P + L && count == L), "the error is wrong");
		check!(d == before, "a failed read changes the destination");
		input_at(&i, cap, P + L);
	}
	let mut l: [u8; S] = any();
	check!(is_ok(&i.read_into(&mut l)), "reading what remains fails");
	check!(l == last, "other octets are read");
	input_at(&i, cap, cap);
}

/// Writing `P` and then `L` octets to `P + L + S`, then one more than fit.
fn long_write<const P: usize, const L: usize, const S: usize>() {
	let first: [u8; P] = any();
	let data: [u8; L] = any();
	let last: [u8; S] = any();
	let mut buf = Vec::with_capacity(P + L + S);
	buf.extend_from_slice(&[0; P]);
	buf.extend_from_slice(&[0; L]);
	buf.extend_from_slice(&last);
	let cap = P + L + S;

	let mut o = Output::new(&mut buf);
	check!(is_ok(&o.write(&first)), "writing what fits fails");
	output_at(&o, cap, P);
	check!(o.as_slice() == first, "other octets are written");
	check!(is_ok(&o.write(&data)), "writing what fits fails");
	output_at(&o, cap, P + L);
	check!(o.as_slice()[..P] == first && o.as_slice()[P..] == data, "other octets are written");
	if S < L {
		check!(matches!(o.write(&data), Err(OutputError { capacity, position, count })
			if capacity == cap && position == P + L && count == L), "the error is wrong");
		output_at(&o, cap, P + L);
	}
	let s: &[u8] = o.as_ref();
	check!(s.len() == P + L && s[..P] == first && s[P..] == data, "a view has wrong octets");
	check!(buf[..P] == first && buf[P..P + L] == data && buf[P + L..] == last, "other octets were changed");
}

harnesses! {
	/// Input::read of any count, from any state
	fn read(18, 20) {
		let raw: [u8; N] = any();
		let (mut i, cap, pos) = input(&raw);
		let count: usize = any();

		match i.read(count) {
			Ok(data) => {
				check!(count <= cap - pos, "more octets are read than remain");
				check!(data.len() == count, "another count is read");
				let at = up_to(N - 1);
				check!(at >= count || data[at] == raw[pos + at], "other octets are read");
				input_at(&i, cap, pos + count);
				cover!(count > 2 && pos > 1, "read");
			}
			Err(InputError { capacity, position, count: c }) => {
				check!(count > cap - pos, "reading what remains fails");
				check!(capacity == cap && position == pos && c == count, "the error is wrong");
				input_at(&i, cap, pos);
				cover!(count == usize::MAX, "huge count");
				cover!(count == cap - pos + 1, "one too many");

				// What remains can still be read.
				let rest = ok(i.read(cap - pos));
				check!(rest.len() == cap - pos, "the stream changed");
				let at = up_to(N - 1);
				check!(at >= rest.len() || rest[at] == raw[pos + at], "the stream changed");
			}
		}
	}

	/// Input::read_into a destination of any length, from any state
	fn read_into(18, 20) {
		let raw: [u8; N] = any();
		let (mut i, cap, pos) = input(&raw);
		let before: [u8; N + 2] = any();
		let mut dst = before;
		let count = up_to(N + 2);

		let r = i.read_into(&mut dst[..count]);
		let at = up_to(N + 1);
		match r {
			Ok(()) => {
				check!(count <= cap - pos, "more octets are read than remain");
				check!(dst[at] == if at < count { raw[pos + at] } else { before[at] }, "other octets are read");
				input_at(&i, cap, pos + count);
				cover!(count > 2 && pos > 1, "read");
			}
			Err(InputError { capacity, position, count: c }) => {
				check!(count > cap - pos, "reading what remains fails");
				check!(capacity == cap && position == pos && c == count, "the error is wrong");
				check!(dst[at] == before[at], "a failed read changes the destination");
				input_at(&i, cap, pos);
				cover!(count == cap - pos + 1, "one too many");
			}
		}
	}

	/// two reads in a row, by either function
	fn reads(18, 20) {
		let raw: [u8; N] = any();
		let (mut i, cap, pos) = input(&raw);
		let (a, b) = (up_to(4), up_to(4));
		let mut dst = [0u8; 4];

		let ra = i.read(a);
		let mid = if a <= cap - pos { pos + a } else { pos };
		check!(is_ok(&ra) == (a <= cap - pos), "a read succeeds or fails wrongly");
		let rb = i.read_into(&mut dst[..b]);
		let end = if b <= cap - mid { mid + b } else { mid };
		check!(is_ok(&rb) == (b <= cap - mid), "a read succeeds or fails wrongly");
		input_at(&i, cap, end);

		let at = up_to(3);
		check!(!is_ok(&rb) || at >= b || dst[at] == raw[mid + at], "other octets are read");
		if let Ok(data) = ra {
			check!(at >= a || data[at] == raw[pos + at], "the octets read before changed");
		}
		cover!(is_ok(&rb) && end == cap && b > 1, "read to the end");
	}

	/// Input::read and read_into of inputs of any size up to 70000
	fn read_big(18, 20) {
		let cap = up_to(BIG.len());
		let pos = up_to(cap);
		let mut i = Input::new(&BIG[..cap]);
		check!(is_ok(&i.read(pos)), "reading within the capacity fails");
		input_at(&i, cap, pos);
		let count: usize = any();
		match i.read(count) {
			Ok(data) => {
				check!(count <= cap - pos && data.len() == count, "more octets are read than remain");
				input_at(&i, cap, pos + count);
				cover!(count > 65535, "a large read");
				cover!(pos > 65535 && count > 0, "a far read");
			}
			Err(InputError { capacity, position, count: c }) => {
				check!(count > cap - pos, "reading what remains fails");
				check!(capacity == cap && position == pos && c == count, "the error is wrong");
				input_at(&i, cap, pos);
			}
		}
		let mut one = [0u8];
		let before = i.remaining();
		check!(is_ok(&i.read_into(&mut one)) == (before > 0), "reading one more octet succeeds or fails wrongly");
		check!(i.remaining() == before - (before > 0) as usize, "the remaining count is wrong");
	}

	/// Output::write of any data, in any state
	fn write(18, 20) {
		let before: [u8; N] = any();
		let mut buf = before;
		let data: [u8; N + 2] = any();
		let first: [u8; N] = any();
		let (cap, at) = (up_to(N), up_to(N - 1));
		let (pos, count) = (up_to(cap), up_to(N + 2));

		let mut o = Output::new(&mut buf[..cap]);
		output_at(&o, cap, 0);
		check!(is_ok(&o.write(&first[..pos])), "writing within the capacity fails");
		output_at(&o, cap, pos);

		let r = o.write(&data[..count]);
		let end = match r {
			Ok(()) => {
				check!(count <= cap - pos, "more octets are written than fit");
				cover!(count > 2 && pos > 1, "written");
				pos + count
			}
			Err(OutputError { capacity, position, count: c }) => {
				check!(count > cap - pos, "writing what fits fails");
				check!(capacity == cap && position == pos && c == count, "the error is wrong");
				cover!(count == cap - pos + 1, "one too many");
				pos
			}
		};
		output_at(&o, cap, end);

		let expected = if at < pos { first[at] } else if at < end { data[at - pos] } else { before[at] };
		check!(at >= end || o.as_slice()[at] == expected, "the written octets are wrong");
		check!(buf[at] == expected, "other octets were changed");
	}

	/// three writes in a row; as_slice is their concatenation
	fn writes(18, 20) {
		let before: [u8; 6] = any();
		let mut buf = before;
		let (a, b, c): ([u8; 3], [u8; 3], [u8; 3]) = (any(), any(), any());
		let (na, nb, nc) = (up_to(3), up_to(3), up_to(3));
		let cap = up_to(6);

		let mut o = Output::new(&mut buf[..cap]);
		let mut want = before;
		let mut n = 0;
		macro_rules! step {
			($d:ident, $len:ident) => {
				let fits = $len <= cap - n;
				check!(is_ok(&o.write(&$d[..$len])) == fits, "a write succeeds or fails wrongly");
				if fits {
					if $len > 0 { want[n] = $d[0]; }
					if $len > 1 { want[n + 1] = $d[1]; }
					if $len > 2 { want[n + 2] = $d[2]; }
					n += $len;
				}
				output_at(&o, cap, n);
			};
		}
		step!(a, na);
		step!(b, nb);
		step!(c, nc);

		let at = up_to(5);
		let (s, r, b): (&[u8], &[u8], &[u8]) = (o.as_slice(), o.as_ref(), o.borrow());
		check!(s.len() == n && r.len() == n && b.len() == n, "a view has the wrong length");
		check!(at >= n || (s[at] == want[at] && r[at] == want[at] && b[at] == want[at]), "a view has wrong octets");
		cover!(n == 6 && na == 1 && nb == 2, "full");
		cover!(n == 5 && nb == 3 && nc == 3, "failed between");
		check!(buf[at] == want[at], "other octets were changed");
	}

	/// outputs compare by what was written, whatever the capacity and the rest
	fn comparison(22, 24) {
		let (mut ba, mut bb): ([u8; 4], [u8; 5]) = (any(), any());
		let (a, b): ([u8; 3], [u8; 3]) = (any(), any());
		let (na, nb) = (up_to(3), up_to(3));
		let same = na == nb && (na < 1 || a[0] == b[0]) && (na < 2 || a[1] == b[1]) && (na < 3 || a[2] == b[2]);

		let mut oa = Output::new(&mut ba);
		check!(is_ok(&oa.write(&a[..na])), "writing fails");
		let mut ob = Output::new(&mut bb);
		check!(is_ok(&ob.write(&b[..nb])), "writing fails");

		check!((oa == ob) == same && (ob == oa) == same && (oa != ob) != same, "outputs compare wrongly");
		let mut d = b;
		let d: &mut [u8] = &mut d[..nb];
		check!((oa == *d) == same, "an output and a slice compare wrongly");
		check!((oa == &*d) == same, "an output and a reference compare wrongly");
		check!((oa == d) == same, "an output and an exclusive reference compare wrongly");
		cover!(same && na == 3, "equal");
		cover!(!same && na == nb, "different");
	}

	/// an output and an input over the same octets
	fn exchange(18, 20) {
		let mut buf: [u8; 8] = any();
		let data: [u8; 4] = any();
		let (n, m) = (up_to(4), up_to(4));
		let mut o = Output::new(&mut buf);
		check!(is_ok(&o.write(&data[..n])), "writing fails");
		let mut i = Input::new(o.as_slice());
		input_at(&i, n, 0);
		match i.read(m) {
			Ok(r) => {
				let at = up_to(3);
				check!(m <= n && r.len() == m, "more octets are read than were written");
				check!(at >= m || r[at] == data[at], "other octets are read");
				cover!(m == 3, "read");
			}
			Err(_) => check!(m > n, "reading what was written fails"),
		}
	}

	/// 9 octets amid others
	fn long_9(16, 16) { long_read::<1, 9, 2>(); long_write::<1, 9, 2>(); }

	/// 18 octets amid others
	fn long_18(24, 24) { long_read::<3, 18, 3>(); long_write::<3, 18, 3>(); }

	/// 35 octets amid others
	fn long_35(46, 46) { long_read::<2, 35, 7>(); long_write::<2, 35, 7>(); }

	/// 70 octets amid others
	fn long_70(80, 80) { long_read::<5, 70, 1>(); long_write::<5, 70, 1>(); }

	/// 130 octets amid others
	fn long_130(160, 160) { long_read::<17, 130, 9>(); long_write::<17, 130, 9>(); }
}
