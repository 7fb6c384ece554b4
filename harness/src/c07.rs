//! C07: decoding arbitrary bytes is memory-safe and total on complete input.
use crate::groups::prelude::*;
use crate::many::*;

/// More octets than any encoding within the bounds needs: no panic.
fn total<T: Ty + Decode>() {
	let raw = T::raw();
	let (r, m) = dec::<T>(&raw);
	check!(m <= CAP, "more octets consumed than there are");

	if let Ok(v) = r {
		// The value is valid and accounts for what was consumed.
		let mut w = W::lenient(&raw);
		v.wire(&mut w);
		check!(w.n == m, "the decoded value does not account for the octets consumed");
		cover!(true, "decoded");
		std::mem::forget(v);
	}
}

/// Truncated input: a panic or an error, never a value.
fn truncated<T: Ty + Decode>() {
	let raw = T::raw();
	let len: usize = any();
	assume(len <= CAP);
	cover!(len < CAP, "truncated");

	let mut i = Input::new(&raw[..len]);
	if let Some(Ok(v)) = crate::sym::may_panic(|| T::decode(&mut i)) {
		let mut w = W::lenient(&raw);
		v.wire(&mut w);
		check!(w.n <= len, "a value was decoded from truncated input");
		check!(i.position() == w.n, "the decoded value does not account for the octets consumed");
		std::mem::forget(v);
	}
}

/// The `n` octets of a decoded string are valid UTF-8.
fn valid(b: &[u8], n: usize) {
	check!(b.len() == n, "the string has the wrong length");
	// How many octets the character still lacks, and the range of the next one.
	let mut state = (0u8, 0u8, 0u8);
	let mut i = 0;
	while i < n {
		let c = b[i];
		state = match state {
			(0, ..) => match c {
				0..=0x7F => (0, 0, 0),
				0xC2..=0xDF => (1, 0x80, 0xBF),
				0xE0 => (2, 0xA0, 0xBF),
				0xE1..=0xEC | 0xEE..=0xEF => (2, 0x80, 0xBF),
				0xED => (2, 0x80, 0x9F),
				0xF0 => (3, 0x90, 0xBF),
				0xF1..=0xF3 => (3, 0x80, 0xBF),
				0xF4 => (3, 0x80, 0x8F),
				_ => (9, 0, 0),
			},
			(k, lo, hi) => if k < 9 && c >= lo && c <= hi { (k - 1, 0x80, 0xBF) } else { (9, 0, 0) },
		};
		i += 1;
	}
	check!(state.0 == 0, "an invalid string");
	cover!(b[0] > 0x7F, "decoded");
}

/// How many of the elements there were are destroyed, by number.
static mut DESTROYED: [bool; 8] = [false; 8];
static mut MADE: usize = 0;

/// An element that must be destroyed at most once, and of which some octets
/// are no encoding.
#[derive(PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Held(u8, u64);

const MARK: u64 = 0xC0FF_EE00_DECA_F000;

impl Decode for Held {
	type Error = ();

	fn decode(input: &mut Input) -> Result<Self, ()> {
		let Ok(v) = u8::decode(input);
		if v > 0x7F {
			return Err(());
		}
		// SAFETY: Harnesses have one thread.
		let n = unsafe {
			MADE += 1;
			MADE - 1
		};
		check!(n < 8, "more elements are decoded than there are");
		Ok(Self(v, MARK + n as u64))
	}
}

impl Drop for Held {
	fn drop(&mut self) {
		// SAFETY: As above.
		unsafe {
			check!(self.1 >= MARK && self.1 < MARK + MADE as u64, "an element is destroyed that was never decoded");
			let n = (self.1 - MARK) as usize;
			check!(!DESTROYED[n], "an element is destroyed twice");
			DESTROYED[n] = true;
		}
	}
}

/// Whether all elements or some of them can be decoded, each is destroyed at
/// most once, and none before its value.
fn held<T: Decode>(raw: &[u8; CAP]) {
	// SAFETY: As above.
	unsafe {
		MADE = 0;
		DESTROYED = [false; 8];
	}
	let (r, _) = dec::<T>(raw);
	let good = is_ok(&r);
	// SAFETY: As above.
	let made = unsafe { MADE };
	let n: usize = any();
	assume(n < 8);
	check!(!good || unsafe { !DESTROYED[n] }, "an element is destroyed before its value");
	drop(r);
	check!(unsafe { MADE } == made, "elements appear later");
	cover!(good, "decoded");
	cover!(!good && made == 1, "an element cannot be decoded");
}

/// `len` elements of a collection.
fn held_all<T: Decode>(len: u8) {
	let mut raw: [u8; CAP] = any();
	(raw[0], raw[1]) = (len, 0);
	held::<T>(&raw);
}

fn valid_text<const N: usize>() {
	let mut raw: [u8; CAP] = any();
	(raw[0], raw[1]) = (N as u8, 0);
	if let (Ok(v), _) = dec::<String>(&raw) {
		valid(v.as_bytes(), N);
	}
}

all_groups!(total,
	/// all numeric types, bool, char, tags and non-zero integers; truncated anywhere
	fn truncated_fixed_mp(18, 18) {
		truncated::<u8>(); truncated::<u32>(); truncated::<u128>(); truncated::<isize>(); truncated::<f64>();
		truncated::<bool>(); truncated::<char>(); truncated::<NonZero<u16>>();
	}

	/// Option, Result, Bound, tuples, ranges, Duration; truncated anywhere
	fn truncated_tagged_mp(18, 18) {
		truncated::<Option<u16>>(); truncated::<Result<u8, u32>>(); truncated::<Bound<u32>>();
		truncated::<(u8, u16)>(); truncated::<Range<u16>>(); truncated::<Duration>();
	}

	/// arrays and addresses; truncated anywhere
	fn truncated_composite_mp(18, 18) {
		truncated::<[u16; 3]>(); truncated::<IpAddr>(); truncated::<SocketAddr>(); truncated::<SystemTime>();
	}

	/// derived types; truncated anywhere
	fn truncated_derived_mp(18, 18) {
		truncated::<Three>(); truncated::<Named>(); truncated::<Composite>(); truncated::<Kinds>(); truncated::<Plain>();
		truncated::<ReprUsize>();
	}

	/// Vec of 1030 elements (2060 in the thorough tier)
	fn long_vec_nt(1032, 2062) { decode_long::<Vec<Nth>>(2, |v| nths(v)); }

	/// Vec<u16>; truncated anywhere
	fn truncated_vec_mp(6, 7) {
		truncated::<Vec<u16>>();
	}

	/// LinkedList<u8>; truncated anywhere
	fn truncated_list_mp(6, 7) {
		truncated::<LinkedList<u8>>();
	}

	/// SizedSlice<u16, 3>; truncated anywhere
	fn truncated_sized_mp(6, 7) {
		truncated::<SizedSlice<u16, 3>>();
	}

	/// String of 3 octets; truncated anywhere
	fn truncated_text_mp(6, 7) {
		truncated::<Text<3>>();
	}

	/// SizedStr<4> of 3 octets; truncated anywhere
	fn truncated_sized_text_mp(6, 7) {
		truncated::<SText<3, 4>>();
	}

	/// CString of 3 octets; truncated anywhere
	fn truncated_c_text_mp(6, 7) {
		truncated::<CText<3>>();
	}

	/// decoded bool, char, NonZero and str hold only valid values, whatever the octets
	fn valid_values(6, 6) {
		let raw: [u8; CAP] = any();

		if let (Ok(v), _) = dec::<bool>(&raw) {
			// SAFETY: `u8` has no invalid values.
			let o = unsafe { std::mem::transmute_copy::<bool, u8>(&v) };
			check!(o <= 1, "an invalid bool");
		}

		if let (Ok(v), _) = dec::<char>(&raw) {
			let c = v as u32;
			check!(c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF), "an invalid char");
		}

		if let (Ok(v), _) = dec::<NonZero<u32>>(&raw) {
			check!(unsafe { std::mem::transmute_copy::<NonZero<u32>, u32>(&v) } != 0, "a null non-zero integer");
		}

		if let (Ok(v), _) = dec::<Duration>(&Duration::raw()) {
			check!(v.subsec_nanos() < 1_000_000_000, "an invalid duration");
		}

		cover!(true, "decoded");
	}

	/// decoded strings of 3 octets are valid UTF-8, whatever the octets
	fn valid_text_3(6, 6) {
		valid_text::<3>();
	}

	/// decoded strings of 9 octets are valid UTF-8, whatever the octets
	fn valid_text_9(12, 12) {
		valid_text::<9>();
	}

	/// decoded strings of 18 octets are valid UTF-8, whatever the octets
	fn valid_text_18(20, 20) {
		valid_text::<18>();
	}

	/// decoded strings of 34 octets are valid UTF-8, whatever the octets
	fn valid_text_34(36, 36) {
		valid_text::<34>();
	}

	/// decoded size-limited strings of 18 octets are valid UTF-8, whatever the octets
	fn valid_sized_text_18(20, 20) {
		let mut raw: [u8; CAP] = any();
		(raw[0], raw[1]) = (18, 0);
		if let (Ok(v), _) = dec::<SizedStr<20>>(&raw) {
			valid(v.as_bytes(), 18);
		}
	}

	/// SizedSlice<u8, 2> and SizedStr<2>, whatever the announced length
	fn any_length(6, 6) {
		let raw: [u8; CAP] = any();
		let announced = raw[0] as usize | (raw[1] as usize) << 8;

		let (r, _) = dec::<SizedSlice<u8, 2>>(&raw);
		if let Ok(v) = r {
			check!(v.len() <= 2 && v.len() == announced, "the slice holds more elements than fit");
			cover!(true, "decoded");
		}
	}

	/// Vec of elements that are destroyed
	fn held_vec(6, 6) {
		held_all::<Vec<Held>>(3);
	}

	/// SizedSlice of elements that are destroyed
	fn held_sized(6, 6) {
		held_all::<SizedSlice<Held, 3>>(3);
	}

	/// LinkedList of elements that are destroyed
	fn held_list(6, 6) {
		held_all::<LinkedList<Held>>(3);
	}

	/// arrays and tuples of elements that are destroyed
	fn held_array(8, 8) {
		let raw: [u8; CAP] = any();
		held::<[Held; 3]>(&raw);
		held::<(Held, Held)>(&raw);
		held::<Range<Held>>(&raw);
	}

	/// boxes and cells of elements that are destroyed
	fn held_box(8, 8) {
		let raw: [u8; CAP] = any();
		held::<(Box<Held>, Box<Held>)>(&raw);
		held::<(Rc<Held>, Rc<Held>)>(&raw);
		held::<(Arc<Held>, Arc<Held>)>(&raw);
		held::<(RefCell<Held>, RefCell<Held>)>(&raw);
	}

	/// Duration whose nanoseconds carry beyond the largest number of seconds
	fn duration_kf(6, 6) {
		let raw: [u8; CAP] = any();
		assume(crate::wire::duration_overflows(&raw));
		cover!(true, "overflows");
		let (r, _) = dec::<Duration>(&raw);
		std::mem::forget(r);
	}
);
