//! `std::sync::atomic`, with modelled cells.
use crate::sym::any;
use std::cell::{Cell, UnsafeCell};
use std::fmt::{self, Debug, Formatter};

pub use std::sync::atomic::*;

/// How often the other threads may store between two accesses of ours.
pub const CHANGES: usize = 4;

/// Which values an atomic has held.
pub struct Stored<T> {
	values: [Cell<T>; CHANGES],
	count: Cell<usize>,
	on: Cell<bool>,
}

impl<T: Copy + PartialEq> Stored<T> {
	pub fn last(&self) -> Option<T> {
		let n = self.count.get();
		if n == 0 { None } else { Some(self.values[n - 1].get()) }
	}
	pub fn count(&self) -> usize {
		self.count.get()
	}
	pub fn get(&self, i: usize) -> T {
		self.values[i].get()
	}
}

macro_rules! atomic {
	($name:ident, $ty:ty, $zero:expr) => {
		pub struct $name {
			v: UnsafeCell<$ty>,
			stored: Stored<$ty>,
		}

		unsafe impl Sync for $name {}

		impl $name {
			pub const fn new(v: $ty) -> Self {
				Self {
					v: UnsafeCell::new(v),
					stored: Stored {
						values: [const { Cell::new($zero) }; CHANGES],
						count: Cell::new(0),
						on: Cell::new(false),
					},
				}
			}

			/// Model only: lets other threads store from now on.
			pub fn model_others(&self) {
				self.stored.on.set(true);
			}

			/// Model only: what the other threads stored.
			pub fn model_stored(&self) -> &Stored<$ty> {
				&self.stored
			}

			/// Model only: the present value.
			pub fn model_value(&self) -> $ty {
				unsafe { *self.v.get() }
			}

			fn others(&self) {
				let n = self.stored.count.get();
				if self.stored.on.get() && n < CHANGES {
					let v: $ty = any();
					self.stored.values[n].set(v);
					self.stored.count.set(n + 1);
					unsafe { *self.v.get() = v };
				}
			}

			pub fn load(&self, order: Ordering) -> $ty {
				assert!(!matches!(order, Ordering::Release | Ordering::AcqRel), "there is no such thing as a release load");
				self.others();
				unsafe { *self.v.get() }
			}

			pub fn store(&self, v: $ty, order: Ordering) {
				assert!(!matches!(order, Ordering::Acquire | Ordering::AcqRel), "there is no such thing as an acquire store");
				self.others();
				unsafe { *self.v.get() = v };
			}

			fn update(&self, f: impl FnOnce($ty) -> $ty) -> $ty {
				self.others();
				let old = unsafe { *self.v.get() };
				unsafe { *self.v.get() = f(old) };
				old
			}

			pub fn swap(&self, v: $ty, _order: Ordering) -> $ty {
				self.update(|_| v)
			}

			pub fn compare_exchange(&self, old: $ty, new: $ty, _ok: Ordering, _err: Ordering) -> Result<$ty, $ty> {
				let now = self.update(|v| if v == old { new } else { v });
				if now == old { Ok(now) } else { Err(now) }
			}

			pub fn compare_exchange_weak(&self, old: $ty, new: $ty, ok: Ordering, err: Ordering) -> Result<$ty, $ty> {
				if any::<bool>() {
					return Err(self.load(Ordering::Relaxed));
				}
				self.compare_exchange(old, new, ok, err)
			}

			pub fn fetch_update(&self, _ok: Ordering, _err: Ordering, mut f: impl FnMut($ty) -> Option<$ty>) -> Result<$ty, $ty> {
				self.others();
				let old = unsafe { *self.v.get() };
				match f(old) {
					Some(v) => { unsafe { *self.v.get() = v }; Ok(old) }
					None => Err(old),
				}
			}

			pub fn fetch_and(&self, v: $ty, _order: Ordering) -> $ty {
				self.update(|o| o & v)
			}

			pub fn fetch_nand(&self, v: $ty, _order: Ordering) -> $ty {
				self.update(|o| !(o & v))
			}

			pub fn fetch_or(&self, v: $ty, _order: Ordering) -> $ty {
				self.update(|o| o | v)
			}

			pub fn fetch_xor(&self, v: $ty, _order: Ordering) -> $ty {
				self.update(|o| o ^ v)
			}

			pub fn get_mut(&mut self) -> &mut $ty {
				self.v.get_mut()
			}

			pub fn into_inner(self) -> $ty {
				self.v.into_inner()
			}

			pub const fn as_ptr(&self) -> *mut $ty {
				self.v.get()
			}
		}

		impl Default for $name {
			fn default() -> Self {
				Self::new($zero)
			}
		}

		impl From<$ty> for $name {
			fn from(v: $ty) -> Self {
				Self::new(v)
			}
		}

		impl Debug for $name {
			fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
				f.write_str(stringify!($name))
			}
		}
	};
}

macro_rules! number {
	($($name:ident($ty:ty)),* $(,)?) => { $(
		atomic!($name, $ty, 0);

		impl $name {
			pub fn fetch_add(&self, v: $ty, _order: Ordering) -> $ty {
				self.update(|o| o.wrapping_add(v))
			}

			pub fn fetch_sub(&self, v: $ty, _order: Ordering) -> $ty {
				self.update(|o| o.wrapping_sub(v))
			}

			pub fn fetch_max(&self, v: $ty, _order: Ordering) -> $ty {
				self.update(|o| o.max(v))
			}

			pub fn fetch_min(&self, v: $ty, _order: Ordering) -> $ty {
				self.update(|o| o.min(v))
			}
		}
	)* };
}

atomic!(AtomicBool, bool, false);
number!(
	AtomicI8(i8), AtomicU8(u8), AtomicI16(i16), AtomicU16(u16), AtomicI32(i32), AtomicU32(u32),
	AtomicI64(i64), AtomicU64(u64), AtomicIsize(isize), AtomicUsize(usize),
);
