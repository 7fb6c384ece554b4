//! C09: encodings are self-delimiting and confined to their own bytes.
use crate::groups::prelude::*;

/// `v` is encoded into arbitrary octets, at an offset, followed by another
/// value.
fn delimited<T: Ty + Encode + Decode>() {
	delimited_at::<T>(1);
}

fn delimited_anywhere<T: Ty + Encode + Decode>() {
	let skip: usize = any();
	assume(skip <= 2);
	delimited_at::<T>(skip);
}

fn delimited_at<T: Ty + Encode + Decode>(skip: usize) {
	let v = T::arb();
	let next: u16 = any();
	let fill: u8 = any();
	let mut buf = [fill; CAP];

	let mut o = Output::new(&mut buf);
	check!(is_ok(&o.write(&[fill; 2][..skip])), "skipping fails");
	let r = v.encode(&mut o);
	check!(is_ok(&r), "encoding failed");
	std::mem::forget(r);
	let mid = o.position();
	check!(is_ok(&next.encode(&mut o)), "encoding failed");
	let end = o.position();
	check!(end == mid + 2, "the second value is misplaced");

	let at: usize = any();
	assume(at < CAP);
	check!((at >= skip && at < end) || buf[at] == fill, "encoding changes an octet outside its own");

	// The octets that follow are arbitrary (`next`, then `fill`), so they do
	// not matter.
	let mut i = Input::new(&buf);
	check!(is_ok(&i.read(skip)), "skipping fails");
	let r = T::decode(&mut i);
	check!(is_ok(&r), "decoding failed");
	check!(i.position() == mid, "decoding stops elsewhere than encoding did");
	check!(ok(r).same(&v), "the decoded value differs");
	check!(ok(u16::decode(&mut i)) == next, "the second value differs");
	check!(i.position() == end, "the second value ends elsewhere");
	cover!(true, "decoded at an offset");
}

/// Three values of different types in a row.
fn row<A: Ty + Encode + Decode, B: Ty + Encode + Decode, C: Ty + Encode + Decode>() {
	let (a, b, c) = (A::arb(), B::arb(), C::arb());
	let mut buf: [u8; CAP] = any();

	let mut o = Output::new(&mut buf);
	let (ra, rb, rc) = (a.encode(&mut o), b.encode(&mut o), c.encode(&mut o));
	check!(is_ok(&ra) && is_ok(&rb) && is_ok(&rc), "encoding failed");
	let end = o.position();
	std::mem::forget((ra, rb, rc));

	let mut i = Input::new(&buf);
	check!(ok(A::decode(&mut i)).same(&a), "the first value differs");
	check!(ok(B::decode(&mut i)).same(&b), "the second value differs");
	check!(ok(C::decode(&mut i)).same(&c), "the third value differs");
	check!(i.position() == end, "the last value ends elsewhere");
	cover!(true, "decoded a row");
}

all_groups!(delimited,
	/// u32, Option<u16> at every offset up to two
	fn anywhere(6, 6) {
		delimited_anywhere::<u32>();
		delimited_anywhere::<Option<u16>>();
	}

	/// Vec<u8> at every offset up to two
	fn anywhere_vec(6, 6) {
		delimited_anywhere::<Vec<u8>>();
	}

	/// rows of numbers, tags and unit
	fn row_fixed(18, 18) {
		row::<u8, Option<u16>, u32>();
		row::<Option<()>, (), Bound<u8>>();
		row::<[u8; 2], bool, char>();
	}

	/// a row of Vec<u8>, u8, SizedSlice<u8, 2>
	fn row_coll(6, 7) {
		row::<Vec<u8>, u8, SizedSlice<u8, 2>>();
	}

	/// a row of SizedStr, Option, String
	fn row_text(6, 7) {
		row::<SText<1, 2>, Option<u8>, Text<2>>();
	}
);
