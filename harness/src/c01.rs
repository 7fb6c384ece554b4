//! C01: fixed-size values survive an encode/decode round trip.
use crate::groups::prelude::*;

fn round_trip<T: Ty + Encode + Decode>() {
	let v = T::arb();
	let mut buf = [0u8; CAP];

	let n = enc(&v, &mut buf);
	let (r, m) = dec::<T>(&buf[..n]);

	check!(is_ok(&r), "decoding the encoding of a value fails");
	check!(m == n, "decoding does not consume exactly the encoding");
	check!(ok(r).same(&v), "the decoded value differs");
	cover!(true, "round trip completed");
}

fixed_groups!(round_trip,
	/// PhantomPinned
	fn pinned(6, 6) {
		round_trip::<PhantomPinned>();
	}
);
