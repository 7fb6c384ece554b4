//! `std::sync`, with modelled locks and atomics.
use std::cell::{Cell, UnsafeCell};
use std::error::Error;
use std::fmt::{self, Debug, Display, Formatter};
use std::ops::{Deref, DerefMut};

pub use std::sync::*;

pub mod atomic;

pub struct PoisonError<T> {
	data: T,
}

impl<T> PoisonError<T> {
	pub fn new(data: T) -> Self {
		Self { data }
	}
	pub fn into_inner(self) -> T {
		self.data
	}
	pub fn get_ref(&self) -> &T {
		&self.data
	}
	pub fn get_mut(&mut self) -> &mut T {
		&mut self.data
	}
}

impl<T> Debug for PoisonError<T> {
	fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
		f.write_str("PoisonError")
	}
}

impl<T> Display for PoisonError<T> {
	fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
		f.write_str("poisoned lock: another task failed inside")
	}
}

impl<T> Error for PoisonError<T> {}

pub enum TryLockError<T> {
	Poisoned(PoisonError<T>),
	WouldBlock,
}

impl<T> From<PoisonError<T>> for TryLockError<T> {
	fn from(e: PoisonError<T>) -> Self {
		Self::Poisoned(e)
	}
}

impl<T> Debug for TryLockError<T> {
	fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
		f.write_str("TryLockError")
	}
}

impl<T> Display for TryLockError<T> {
	fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
		f.write_str("TryLockError")
	}
}

impl<T> Error for TryLockError<T> {}

pub type LockResult<T> = Result<T, PoisonError<T>>;
pub type TryLockResult<T> = Result<T, TryLockError<T>>;

/// What the other threads do to the contents while nobody holds the lock.
pub type Others = fn(*mut ());

/// Number of holders: -1 for an exclusive one.
struct State {
	held: Cell<isize>,
	poisoned: Cell<bool>,
	others: Cell<Option<Others>>,
	acquired: Cell<usize>,
}

impl State {
	const fn new() -> Self {
		Self { held: Cell::new(0), poisoned: Cell::new(false), others: Cell::new(None), acquired: Cell::new(0) }
	}

	/// The other threads run, unless the lock keeps them out.
	fn others(&self, data: *mut ()) {
		if self.held.get() == 0 {
			if let Some(f) = self.others.get() {
				f(data);
			}
		}
	}

	/// May another thread hold the lock right now?
	fn contended(&self) -> bool {
		self.others.get().is_some() && self.held.get() == 0 && crate::sym::any::<bool>()
	}

	fn exclusive(&self, data: *mut ()) {
		self.others(data);
		assert!(self.held.get() == 0, "a thread waits for a lock that it holds itself");
		self.held.set(-1);
		self.acquired.set(self.acquired.get() + 1);
	}

	fn shared(&self, data: *mut ()) {
		self.others(data);
		assert!(self.held.get() >= 0, "a thread waits for a lock that it holds itself");
		self.held.set(self.held.get() + 1);
		self.acquired.set(self.acquired.get() + 1);
	}

	fn release(&self, data: *mut ()) {
		self.held.set(if self.held.get() < 0 { 0 } else { self.held.get() - 1 });
		self.others(data);
	}
}

macro_rules! lock {
	($lock:ident) => {
		pub struct $lock<T: ?Sized> {
			state: State,
			data: UnsafeCell<T>,
		}

		unsafe impl<T: ?Sized + Send> Send for $lock<T> {}
		unsafe impl<T: ?Sized + Send> Sync for $lock<T> {}

		impl<T> $lock<T> {
			pub const fn new(data: T) -> Self {
				Self { state: State::new(), data: UnsafeCell::new(data) }
			}

			pub fn into_inner(self) -> LockResult<T> {
				let poisoned = self.state.poisoned.get();
				let data = self.data.into_inner();
				if poisoned { Err(PoisonError::new(data)) } else { Ok(data) }
			}
		}

		impl<T: ?Sized> $lock<T> {
			pub fn is_poisoned(&self) -> bool {
				self.state.poisoned.get()
			}

			pub fn clear_poison(&self) {
				self.state.poisoned.set(false);
			}

			pub fn get_mut(&mut self) -> LockResult<&mut T> {
				let poisoned = self.state.poisoned.get();
				let data = self.data.get_mut();
				if poisoned { Err(PoisonError::new(data)) } else { Ok(data) }
			}

			/// Model only: a thread panicked while it held the lock.
			pub fn model_poison(&self, poisoned: bool) {
				self.state.poisoned.set(poisoned);
			}

			/// Model only: lets other threads use the lock from now on.
			pub fn model_others(&self, others: Others) {
				self.state.others.set(Some(others));
			}

			/// Model only: is the lock held?
			pub fn model_held(&self) -> bool {
				self.state.held.get() != 0
			}

			/// Model only: how often it was acquired.
			pub fn model_acquired(&self) -> usize {
				self.state.acquired.get()
			}

			fn thin(&self) -> *mut () {
				self.data.get().cast()
			}
		}

		impl<T: Default> Default for $lock<T> {
			fn default() -> Self {
				Self::new(T::default())
			}
		}

		impl<T> From<T> for $lock<T> {
			fn from(data: T) -> Self {
				Self::new(data)
			}
		}

		impl<T: ?Sized> Debug for $lock<T> {
			fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
				f.write_str(stringify!($lock))
			}
		}
	};
}

macro_rules! guard {
	($guard:ident, $lock:ident $(, $mutable:ident)?) => {
		#[must_use]
		pub struct $guard<'a, T: ?Sized> {
			lock: &'a $lock<T>,
		}

		impl<T: ?Sized> Deref for $guard<'_, T> {
			type Target = T;
			fn deref(&self) -> &T {
				unsafe { &*self.lock.data.get() }
			}
		}

		$(impl<T: ?Sized> DerefMut for $guard<'_, T> {
			fn deref_mut(&mut self) -> &mut T {
				let $mutable = self.lock.data.get();
				unsafe { &mut *$mutable }
			}
		})?

		impl<T: ?Sized> Drop for $guard<'_, T> {
			fn drop(&mut self) {
				self.lock.state.release(self.lock.thin());
			}
		}

		impl<T: ?Sized + Debug> Debug for $guard<'_, T> {
			fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
				Debug::fmt(&**self, f)
			}
		}

		impl<T: ?Sized + Display> Display for $guard<'_, T> {
			fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
				Display::fmt(&**self, f)
			}
		}
	};
}

lock!(Mutex);
lock!(RwLock);
guard!(MutexGuard, Mutex, ptr);
guard!(RwLockReadGuard, RwLock);
guard!(RwLockWriteGuard, RwLock, ptr);

macro_rules! acquire {
	($lock:ident, $guard:ident, $how:ident, $name:ident, $try_name:ident, $free:expr) => {
		impl<T: ?Sized> $lock<T> {
			pub fn $name(&self) -> LockResult<$guard<'_, T>> {
				self.state.$how(self.thin());
				let guard = $guard { lock: self };
				if self.state.poisoned.get() { Err(PoisonError::new(guard)) } else { Ok(guard) }
			}

			pub fn $try_name(&self) -> TryLockResult<$guard<'_, T>> {
				let free: fn(isize) -> bool = $free;
				if !free(self.state.held.get()) || self.state.contended() {
					return Err(TryLockError::WouldBlock);
				}
				Ok(self.$name()?)
			}
		}
	};
}

acquire!(Mutex, MutexGuard, exclusive, lock, try_lock, |n| n == 0);
acquire!(RwLock, RwLockReadGuard, shared, read, try_read, |n| n >= 0);
acquire!(RwLock, RwLockWriteGuard, exclusive, write, try_write, |n| n == 0);
