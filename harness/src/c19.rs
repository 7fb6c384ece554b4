//! C19: decoding is injective; re-encoding restores the consumed bytes.
use crate::groups::prelude::*;

fn restores<T: Ty + Encode + Decode>() {
	let raw = T::raw();
	assume(T::normal(&raw));
	let (r, m) = dec::<T>(&raw);

	if let Ok(v) = r {
		// The octets consumed are those of the value, but for truth tags.
		let mut w = W::lenient(&raw);
		v.wire(&mut w);
		check!(w.n == m && w.same, "the octets consumed are not those of the decoded value");

		// So are the octets of its encoding.
		let mut buf = [0u8; CAP];
		let n = enc(&v, &mut buf);
		check!(n == m, "re-encoding yields another length than was consumed");
		let mut w = W::new(&buf);
		v.wire(&mut w);
		check!(w.same, "re-encoding yields other octets than were consumed");
		cover!(true, "re-encoded");
		std::mem::forget(v);
	}
}

all_groups!(restores,
	/// PhantomPinned
	fn pinned(6, 6) {
		restores::<PhantomPinned>();
	}
);
