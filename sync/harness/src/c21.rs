//! C21: encoding shared state observes one stored value.
use oct::SizedSlice;
use oct::encode::{Encode, Output};
use std::sync::Arc;
use vstd::sym::{any, assume};
use vstd::sync::atomic::*;
use vstd::sync::{Mutex, RwLock};

const ROOM: usize = 16;

/// The octets, their number, and whether it was refused.
fn outcome<T: Encode + ?Sized>(v: &T) -> (u128, usize, bool) {
	let mut buf = [0u8; ROOM];
	let mut o = Output::new(&mut buf);
	let r = v.encode(&mut o);
	let bad = r.is_err();
	std::mem::forget(r);
	let n = o.position();
	(u128::from_le_bytes(buf), n, bad)
}

/// How often the other threads store at most.
const STORES: usize = if cfg!(feature = "thorough") { 6 } else { 4 };

/// Declares what the other threads do to a lock of `$ty`: they store arbitrary
/// values, which are recorded.
macro_rules! shared {
	($m:ident, $ty:ty, $arb:expr) => { shared!($m, $ty, $arb, super::STORES); };
	($m:ident, $ty:ty, $arb:expr, $stores:expr) => {
		mod $m {
			use super::*;
			const STORES: usize = $stores;
			pub static mut STORED: [Option<$ty>; STORES] = [const { None }; STORES];
			pub static mut COUNT: usize = 0;
			pub fn arb() -> $ty { $arb }
			pub fn others(p: *mut ()) {
				unsafe {
					if COUNT < STORES {
						let v = arb();
						STORED[COUNT] = Some(v.clone());
						COUNT += 1;
						*p.cast::<$ty>() = v;
					}
				}
			}
			/// Encoding `w` yields the encoding of `first` or of a stored value.
			pub fn check<W: Encode>(w: &W, first: &$ty) {
				let (a, n, bad) = outcome(w);
				let same = |v: &$ty| {
					let (b, m, e) = outcome(v);
					a == b && n == m && bad == e
				};
				let mut found = same(first);
				for i in 0..STORES {
					if let Some(v) = unsafe { &STORED[i] } {
						found |= same(v);
					}
				}
				check!(found, "what is encoded was never stored");
				cover!(n > 0 && !same(first), "a value of another thread is encoded");
			}
		}
	};
}

macro_rules! lock {
	($lock:ident, $m:ident) => {{
		let first = $m::arb();
		let m = $lock::new(first.clone());
		m.model_poison(any());
		m.model_others($m::others);
		$m::check(&m, &first);
		check!(!m.model_held(), "the lock stays held");
		check!(unsafe { $m::COUNT } >= 1, "the other threads never run");
	}};
}

fn text() -> SizedSlice<u8, 2> {
	let raw: [u8; 2] = any();
	let n: usize = any();
	assume(n <= 2);
	raw[..n].iter().copied().collect()
}

shared!(pair, (u16, u16), (any(), any()));
shared!(array, [u8; 3], any());
shared!(option, Option<u16>, if any() { Some(any()) } else { None });
shared!(result, Result<u8, u16>, if any() { Ok(any()) } else { Err(any()) });
shared!(text_, SizedSlice<u8, 2>, text(), 2);
shared!(number, usize, any());
shared!(numbers, (usize, usize), (any(), any()));
shared!(wide, u128, any());

/// Atomics.
macro_rules! atomics {
	($($a:ident($t:ty)),* $(,)?) => { $({
		let v: $t = any();
		let a = $a::new(v);
		a.model_others();
		let (x, n, bad) = outcome(&a);
		let same = |v: &$t| {
			let (y, m, e) = outcome(v);
			x == y && n == m && bad == e
		};
		let mut found = same(&v);
		for i in 0..CHANGES {
			if i < a.model_stored().count() {
				found |= same(&a.model_stored().get(i));
			}
		}
		check!(found, "what is encoded was never stored");
		cover!(!same(&v), "a value of another thread is encoded");
	})* };
}

/// A user's type with shared members.
#[derive(Encode)]
struct Members {
	a: Mutex<(u8, u8)>,
	b: AtomicU16,
}

shared!(bytes, (u8, u8), (any(), any()));

harnesses! {
	/// mutex of a pair
	fn mutex_pair(7, 7) { lock!(Mutex, pair) }
	/// mutex of an array
	fn mutex_array(7, 7) { lock!(Mutex, array) }
	/// mutex of an optional value
	fn mutex_option(7, 7) { lock!(Mutex, option) }
	/// mutex of a fallible value
	fn mutex_result(7, 7) { lock!(Mutex, result) }
	/// mutex of a size-limited slice
	fn mutex_slice(4, 4) { lock!(Mutex, text_) }
	/// mutex of a number that may be refused
	fn mutex_number(7, 7) { lock!(Mutex, number) }
	/// mutex of numbers that may be refused
	fn mutex_numbers(7, 7) { lock!(Mutex, numbers) }
	/// mutex of a wide number
	fn mutex_wide(7, 7) { lock!(Mutex, wide) }

	/// read-write lock of a pair
	fn rw_lock_pair(7, 7) { lock!(RwLock, pair) }
	/// read-write lock of an array
	fn rw_lock_array(7, 7) { lock!(RwLock, array) }
	/// read-write lock of an optional value
	fn rw_lock_option(7, 7) { lock!(RwLock, option) }
	/// read-write lock of a fallible value
	fn rw_lock_result(7, 7) { lock!(RwLock, result) }
	/// read-write lock of a size-limited slice
	fn rw_lock_slice(4, 4) { lock!(RwLock, text_) }
	/// read-write lock of a number that may be refused
	fn rw_lock_number(7, 7) { lock!(RwLock, number) }
	/// read-write lock of numbers that may be refused
	fn rw_lock_numbers(7, 7) { lock!(RwLock, numbers) }
	/// read-write lock of a wide number
	fn rw_lock_wide(7, 7) { lock!(RwLock, wide) }

	/// a lock behind pointers
	fn shared_pointer(7, 7) {
		let first = pair::arb();
		let m = Arc::new(Mutex::new(first));
		m.model_others(pair::others);
		pair::check(&m, &first);
	}

	/// a lock of an unsized slice
	fn unsized_slice(7, 7) {
		let first = array::arb();
		let m = RwLock::new(first);
		m.model_others(array::others);
		let w: &RwLock<[u8]> = &m;
		let (a, n, bad) = outcome(w);
		let a = a.to_le_bytes();
		check!(n == 5 && !bad && a[0] == 3 && a[1] == 0, "the slice is not encoded");
		let same = |v: &[u8; 3]| a[2] == v[0] && a[3] == v[1] && a[4] == v[2];
		let mut found = same(&first);
		for i in 0..STORES {
			if let Some(v) = unsafe { &array::STORED[i] } {
				found |= same(v);
			}
		}
		check!(found, "what is encoded was never stored");
	}

	/// atomics of 8 and 16 bits
	fn atomics_small(7, 7) {
		atomics!(AtomicBool(bool), AtomicU8(u8), AtomicI8(i8), AtomicU16(u16), AtomicI16(i16));
	}
	/// atomics of 32 and 64 bits
	fn atomics_large(7, 7) {
		atomics!(AtomicU32(u32), AtomicI32(i32), AtomicU64(u64), AtomicI64(i64));
	}
	/// pointer-sized atomics
	fn atomics_pointer(7, 7) {
		atomics!(AtomicUsize(usize), AtomicIsize(isize));
	}

	/// a derived type with shared members
	fn members(7, 7) {
		let (a, b) = (bytes::arb(), any::<u16>());
		let m = Members { a: Mutex::new(a), b: AtomicU16::new(b) };
		m.a.model_others(bytes::others);
		m.b.model_others();
		let (x, n, bad) = outcome(&m);
		let x = x.to_le_bytes();
		check!(n == 4 && !bad, "the members are not encoded");
		let mut found = (x[0], x[1]) == a;
		for i in 0..STORES {
			if let Some(v) = unsafe { bytes::STORED[i] } {
				found |= (x[0], x[1]) == v;
			}
		}
		check!(found, "what is encoded was never stored");
		let y = u16::from_le_bytes([x[2], x[3]]);
		let mut found = y == b;
		for i in 0..CHANGES {
			found |= i < m.b.model_stored().count() && m.b.model_stored().get(i) == y;
		}
		check!(found, "what is encoded was never stored");
	}
}
