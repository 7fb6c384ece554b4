//! C04: no encoding exceeds the declared maximum size.
use crate::groups::prelude::*;
use std::cell::LazyCell;
use std::sync::LazyLock;

fn bounded<T: Ty + Encode + Decode + SizedEncode>() {
	fits(&T::arb());

	// Decoding arbitrary octets never consumes more either.
	let raw = T::raw();
	let (r, m) = dec::<T>(&raw);
	check!(!is_ok(&r) || m <= T::MAX_ENCODED_SIZE, "decoding consumes more than the declared maximum size");
	std::mem::forget(r);
}

fn fits<T: Encode + SizedEncode>(v: &T) {
	let max = T::MAX_ENCODED_SIZE;
	check!(max <= CAP, "the declared size exceeds the buffer of this harness");

	// Encoding into exactly the declared size neither fails nor panics.
	let mut buf = [0u8; CAP];
	let n = enc(v, &mut buf[..max]);
	check!(n <= max, "an encoding exceeds the declared maximum size");
	cover!(n <= max, "encoded within the bound");
}

/// Every value, even one that is refused, against a buffer of the maximum size.
fn refused<T: Encode + SizedEncode>(v: T) {
	let mut buf = [0u8; CAP];
	let mut o = Output::new(&mut buf[..T::MAX_ENCODED_SIZE]);
	let r = v.encode(&mut o);
	cover!(!is_ok(&r), "refused");
	cover!(is_ok(&r), "accepted");
	std::mem::forget(r);
}

fn text<const N: usize, const C: usize>() {
	let s = SText::<N, C>::arb();
	fits(&s.0);
}

fixed_groups!(bounded,
	/// usize, isize of any value, and tuples and options of them
	fn beyond_limits(6, 6) {
		refused(any::<usize>());
		refused(any::<isize>());
		refused((any::<u8>(), any::<u32>()).0 as usize * 257);
		refused([any::<usize>(), any::<usize>()]);
		refused(if any() { Some(any::<isize>()) } else { None });
	}

	/// derived types of many fields or variants, and generic ones
	fn derived_wide(20, 20) {
		bounded::<Fields>(); bounded::<Wide>(); bounded::<Choice<u16>>();
	}

	/// SizedSlice<u16, 3>, SizedSlice<u8, 0>
	fn sized_slice(6, 7) {
		bounded::<SizedSlice<u16, 3>>();
		bounded::<SizedSlice<u8, 0>>();
	}

	/// SizedSlice<Option<u8>, 2>
	fn sized_slice_opt(6, 7) {
		bounded::<SizedSlice<Option<u8>, 2>>();
	}

	/// SizedSlice<SizedSlice<u8, 1>, 2>
	fn sized_slice_nested(5, 7) {
		bounded::<SizedSlice<SizedSlice<u8, 1>, 2>>();
	}

	/// SizedStr<0>, SizedStr<3>, SizedStr<4>, full and not
	fn sized_str(6, 6) {
		text::<0, 0>();
		text::<0, 4>();
		text::<2, 3>();
		text::<3, 3>();
		text::<4, 4>();
	}

	/// Box, Rc, Arc, Cow, Cell of numbers and tags
	fn pointers(6, 7) {
		bounded::<Box<u32>>();
		bounded::<Rc<Option<u8>>>();
		bounded::<Arc<u16>>();
		bounded::<Cell<char>>();
		bounded::<Cow<'static, u32>>();
	}

	/// RefCell, Mutex, RwLock of numbers
	fn locks(6, 7) {
		bounded::<RefCell<u64>>();
		bounded::<Mutex<u32>>();
		bounded::<RwLock<u16>>();
	}

	/// LazyCell, LazyLock, shared and exclusive references
	fn lazy(6, 7) {
		let x: u32 = any();
		let mut z: u64 = any();
		let cell: LazyCell<u32> = LazyCell::new(any::<u32>);
		fits(&cell);
		let lock: LazyLock<u16> = LazyLock::new(any::<u16>);
		fits(&lock);
		fits(&&x);
		fits(&&mut z);
	}

	/// Result whose members have encodings larger or smaller than their layout
	fn layouts(6, 7) {
		fits(&Result::<u128, u128>::arb());
		bounded::<Result<Option<u64>, ()>>();
		bounded::<Result<[u64; 2], [u8; 3]>>();
		bounded::<Result<usize, usize>>();
	}
);
