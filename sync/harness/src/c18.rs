//! C18: locks that are poisoned, or used by other threads.
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use std::cell::Cell;
use std::convert::Infallible;
use vstd::sym::{any, assume};
use vstd::sync::atomic::*;
use vstd::sync::{Mutex, RwLock};

#[derive(Clone, Copy, PartialEq)]
struct Refused(u16);

/// Writes up to three octets, and succeeds or fails, as told; checks that
/// whatever holds it is locked meanwhile.
#[derive(Clone, Copy)]
struct Probe<'a> {
	octets: [u8; 3],
	len: usize,
	fail: Option<u16>,
	locked: Option<&'a dyn Fn() -> bool>,
}

impl<'a> Probe<'a> {
	fn arb(locked: &'a dyn Fn() -> bool) -> Self {
		let len = any();
		assume(len <= 3);
		Self { octets: any(), len, fail: if any() { Some(any()) } else { None }, locked: Some(locked) }
	}
}

impl Encode for Probe<'_> {
	type Error = Refused;
	fn encode(&self, o: &mut Output) -> Result<(), Refused> {
		if let Some(f) = self.locked {
			check!(f(), "the lock is not held while the value is encoded");
		}
		check!(o.write(&self.octets[..self.len]).is_ok(), "the output is too small");
		match self.fail {
			Some(c) => Err(Refused(c)),
			None => Ok(()),
		}
	}
}

impl Decode for Probe<'_> {
	type Error = Refused;
	fn decode(i: &mut Input) -> Result<Self, Refused> {
		let mut octets = [0u8; 3];
		check!(i.read_into(&mut octets).is_ok(), "the input is too small");
		if octets[0] == 9 {
			Err(Refused(octets[1].into()))
		} else {
			Ok(Self { octets, len: 3, fail: None, locked: None })
		}
	}
}

fn alike<W: Encode<Error = Refused>>(w: &W, v: &Probe) {
	let mut buf = [0u8; 8];
	let mut o = Output::new(&mut buf);
	let r = w.encode(&mut o);
	check!(o.position() == v.len, "another number of octets is written");
	check!(r.err().map(|e| e.0) == v.fail, "another failure is reported");
	let at: usize = any();
	assume(at < 3);
	if at < v.len {
		check!(buf[at] == v.octets[at], "other octets are written");
	}
}

macro_rules! locks {
	($lock:ident) => {{
		let at = Cell::new(std::ptr::null::<$lock<Probe>>());
		let held = || unsafe { (*at.get()).model_held() };
		let v = Probe::arb(&held);
		let m = $lock::new(v);
		at.set(&m);
		let poisoned: bool = any();
		m.model_poison(poisoned);
		alike(&m, &v);
		check!(!m.model_held(), "the lock stays held");
		check!(m.is_poisoned() == poisoned, "encoding changes whether the lock is poisoned");
		check!(m.model_acquired() == 1, "the lock is not held throughout");
		cover!(poisoned && v.fail.is_none() && v.len == 3, "poisoned, encoded");
		cover!(poisoned && v.fail.is_some(), "poisoned, refused");
		let w = match m.into_inner() { Ok(w) => w, Err(e) => e.into_inner() };
		check!(w.octets == v.octets && w.len == v.len, "encoding changes the value");
	}};
}

macro_rules! decoded {
	($lock:ident) => {{
		let raw: [u8; 4] = any();
		let mut i = Input::new(&raw);
		match $lock::<Probe>::decode(&mut i) {
			Ok(m) => {
				check!(!m.is_poisoned() && !m.model_held(), "the decoded lock is not usable");
				check!(raw[0] != 9, "a failure is lost");
				let Ok(v) = m.into_inner() else { panic!("the decoded lock is poisoned") };
				check!(v.octets == [raw[0], raw[1], raw[2]], "another value is decoded");
			}
			Err(e) => check!(raw[0] == 9 && e.0 == raw[1].into(), "another failure is reported"),
		}
		check!(i.position() == 3, "another number of octets is consumed");
	}};
}

harnesses! {
	/// mutexes, poisoned or not
	fn poisoned_mutex(8, 8) { locks!(Mutex) }

	/// read-write locks, poisoned or not
	fn poisoned_rw_lock(8, 8) { locks!(RwLock) }

	/// pointers to poisoned locks, locks within locks
	fn poisoned_nested(8, 8) {
		let yes = || true;
		let v = Probe::arb(&yes);
		let m = Mutex::new(Box::new(RwLock::new(v)));
		m.model_poison(any());
		match m.lock() { Ok(g) => g.model_poison(any()), Err(g) => g.get_ref().model_poison(any()) };
		alike(&&m, &v);
		check!(!m.model_held(), "the lock stays held");
	}

	/// decoded locks
	fn decode_locks(8, 8) {
		decoded!(Mutex);
		decoded!(RwLock);
	}

	/// atomics that other threads store into keep the last stored value
	fn atomics_kept(20, 20) {
		macro_rules! one {
			($($a:ident($t:ty)),*) => { $(
				let v: $t = any();
				let a = $a::new(v);
				a.model_others();
				let mut buf = [0u8; 8];
				let r = a.encode(&mut Output::new(&mut buf));
				std::mem::forget(r);
				check!(a.model_value() == a.model_stored().last().unwrap_or(v), "encoding overwrites a stored value");
			)* };
		}
		one!(AtomicBool(bool), AtomicU8(u8), AtomicI8(i8), AtomicU16(u16), AtomicI16(i16), AtomicU32(u32), AtomicI32(i32));
		one!(AtomicU64(u64), AtomicI64(i64), AtomicUsize(usize), AtomicIsize(isize));
	}
}
