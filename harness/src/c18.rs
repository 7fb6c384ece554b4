//! C18: wrapper and pointer types are transparent on the wire.
use crate::groups::prelude::*;
use oct::error::{RefCellEncodeError, UsizeEncodeError};
use std::cell::LazyCell;
use std::sync::LazyLock;

fn up_to(max: usize) -> usize {
	let n: usize = any();
	assume(n <= max);
	n
}

/// Room for the encodings compared here.
const ROOM: usize = 20;

/// Why a value was refused.
#[derive(Clone, Copy, PartialEq)]
struct Refused(u16);

/// Writes up to three octets, and succeeds or fails, as told.
#[derive(Clone, Copy)]
struct Probe {
	octets: [u8; 3],
	len: usize,
	fail: Option<u16>,
}

impl Probe {
	fn arb() -> Self {
		Self { octets: any(), len: up_to(3), fail: if any() { Some(any()) } else { None } }
	}
}

impl Encode for Probe {
	type Error = Refused;
	fn encode(&self, o: &mut Output) -> Result<(), Refused> {
		check!(is_ok(&o.write(&self.octets[..self.len])), "the output is too small");
		match self.fail {
			Some(c) => Err(Refused(c)),
			None => Ok(()),
		}
	}
}

impl SizedEncode for Probe {
	const MAX_ENCODED_SIZE: usize = 3;
}

impl Decode for Probe {
	type Error = Refused;
	fn decode(i: &mut Input) -> Result<Self, Refused> {
		let mut octets = [0u8; 3];
		check!(is_ok(&i.read_into(&mut octets)), "the input is too small");
		if octets[0] == 9 {
			Err(Refused(u16::from_le_bytes([octets[1], octets[2]])))
		} else {
			Ok(Self { octets, len: 3, fail: None })
		}
	}
}

/// What encoding produced: the octets, their count, and the failure.
struct Outcome<E> {
	buf: [u8; ROOM],
	pos: usize,
	err: Option<E>,
}

fn outcome<T: Encode + ?Sized>(v: &T) -> Outcome<T::Error> {
	let mut buf = [0xA5u8; ROOM];
	let mut o = Output::new(&mut buf);
	let err = v.encode(&mut o).err();
	let pos = o.position();
	Outcome { buf, pos, err }
}

fn same_octets<E, F>(a: &Outcome<E>, b: &Outcome<F>) {
	check!(a.pos == b.pos, "another number of octets is written");
	check!(a.err.is_some() == b.err.is_some(), "a failure appears or is lost");
	let at = up_to(ROOM - 1);
	check!(a.buf[at] == b.buf[at], "other octets are written");
}

/// Encoding `w` does exactly what encoding `v` does.
fn probe<W: Encode<Error = Refused> + ?Sized>(w: &W, v: &Probe) {
	let (a, b) = (outcome(w), outcome(v));
	same_octets(&a, &b);
	check!(a.err == b.err, "another failure is reported");
	cover!(b.err.is_some() && b.pos == 3, "refused");
	cover!(b.err.is_none() && b.pos == 2, "written");
}

/// Encoding `w` yields the same octets as encoding `v`.
fn alike<W: Encode + ?Sized, V: Encode + ?Sized>(w: &W, v: &V) {
	let (a, b) = (outcome(w), outcome(v));
	same_octets(&a, &b);
	std::mem::forget((a, b));
}

/// A refused number is refused as such.
fn number<W: Encode<Error = UsizeEncodeError>>(w: &W, v: usize) {
	let (a, b) = (outcome(w), outcome(&v));
	same_octets(&a, &b);
	if let (Some(a), Some(b)) = (a.err, b.err) {
		check!(a.0 == v && b.0 == v, "another failure is reported");
		cover!(v == 65536, "refused");
	}
}

/// Decoding `W` is decoding a probe, and wrapping it.
fn decoded<W: Decode<Error = Refused>>(get: impl FnOnce(&W) -> Probe) {
	let raw: [u8; 5] = any();
	let (a, n) = dec::<W>(&raw);
	let (b, m) = dec::<Probe>(&raw);
	check!(n == m, "another number of octets is consumed");
	match (a, b) {
		(Ok(w), Ok(p)) => {
			let q = get(&w);
			check!(q.octets == p.octets && q.len == 3 && q.fail.is_none(), "another value is decoded");
			std::mem::forget(w);
			cover!(true, "decoded");
		}
		(Err(a), Err(b)) => {
			check!(a == b, "another failure is reported");
			cover!(a.0 == 700, "refused");
		}
		_ => check!(false, "a failure appears or is lost"),
	}
}

/// Checks that whatever holds it is locked while it is encoded.
struct Watched<'a> {
	locked: &'a dyn Fn() -> bool,
}

impl Encode for Watched<'_> {
	type Error = Refused;
	fn encode(&self, o: &mut Output) -> Result<(), Refused> {
		check!((self.locked)(), "the lock is not held while the value is encoded");
		check!(is_ok(&o.write(&[1])), "the output is too small");
		if any() { Err(Refused(1)) } else { Ok(()) }
	}
}

macro_rules! max_is {
	($inner:ty: $($w:ty),* $(,)?) => { $(
		check!(<$w as SizedEncode>::MAX_ENCODED_SIZE == <$inner as SizedEncode>::MAX_ENCODED_SIZE, "another maximum size is declared");
	)* };
}

harnesses! {
	/// references
	fn references(8, 8) {
		let mut v = Probe::arb();
		let w = v;
		probe(&&w, &w);
		probe(&&&w, &w);
		probe(&&mut v, &w);
		check!(v.octets == w.octets, "encoding changes the value");
	}

	/// boxes, reference-counted pointers
	fn pointers(8, 8) {
		let v = Probe::arb();
		let b = Box::new(v);
		probe(&b, &v);
		check!(b.octets == v.octets && b.len == v.len, "encoding changes the value");
		let r = Rc::new(v);
		let r2 = r.clone();
		probe(&r, &v);
		check!(Rc::strong_count(&r2) == 2 && r.octets == v.octets, "encoding changes the value");
		let a = Arc::new(v);
		probe(&a, &v);
		check!(Arc::strong_count(&a) == 1 && a.octets == v.octets, "encoding changes the value");
	}

	/// borrowed-or-owned values
	fn cow(8, 8) {
		let v = Probe::arb();
		let c: Cow<Probe> = if any() { Cow::Borrowed(&v) } else { Cow::Owned(v) };
		let owned = matches!(c, Cow::Owned(_));
		probe(&c, &v);
		check!(matches!(c, Cow::Owned(_)) == owned && c.octets == v.octets, "encoding changes the value");
	}

	/// cells
	fn cells(8, 8) {
		let v = Probe::arb();
		let c = Cell::new(v);
		probe(&c, &v);
		check!(c.get().octets == v.octets && c.get().len == v.len, "encoding changes the value");
		let (a, b) = (outcome(&RefCell::new(v)), outcome(&v));
		same_octets(&a, &b);
		match (a.err, b.err) {
			(Some(RefCellEncodeError::BadValue(a)), Some(b)) => check!(a == b, "another failure is reported"),
			(None, None) => {}
			_ => check!(false, "another failure is reported"),
		}
	}

	/// reference cells, in every state
	fn ref_cell(8, 8) {
		let v = Probe::arb();
		let c = RefCell::new(v);
		if any() {
			// Shared borrows do not matter.
			let g = c.borrow();
			same_octets(&outcome(&c), &outcome(&v));
			check!(c.try_borrow().is_ok() && c.try_borrow_mut().is_err(), "encoding changes the borrow");
			drop(g);
		} else {
			same_octets(&outcome(&c), &outcome(&v));
		}
		check!(c.try_borrow_mut().is_ok(), "the cell stays borrowed");
		check!(c.borrow().octets == v.octets, "encoding changes the value");
	}

	/// a mutably borrowed reference cell is refused, and stays so
	fn ref_cell_refused(8, 8) {
		let c = RefCell::new(any::<u16>());
		let g = c.borrow_mut();
		let a = outcome(&c);
		check!(a.pos == 0 && matches!(a.err, Some(RefCellEncodeError::BadBorrow(_))), "a borrowed cell is encoded");
		check!(c.try_borrow().is_err(), "encoding changes the borrow");
		drop(g);
		check!(outcome(&c).err.is_none(), "the cell stays borrowed");
		check!(c.try_borrow_mut().is_ok(), "the cell stays borrowed");
	}

	/// mutexes
	fn mutex(8, 8) {
		let v = Probe::arb();
		let m = Mutex::new(v);
		probe(&m, &v);
		check!(m.try_lock().is_ok_and(|g| g.octets == v.octets && g.len == v.len), "the mutex stays locked or is changed");
		check!(!m.is_poisoned(), "encoding poisons the mutex");
	}

	/// read-write locks
	fn rw_lock(8, 8) {
		let v = Probe::arb();
		let m = RwLock::new(v);
		probe(&m, &v);
		check!(m.try_write().is_ok_and(|g| g.octets == v.octets && g.len == v.len), "the lock stays locked or is changed");
		check!(!m.is_poisoned(), "encoding poisons the lock");
		// Other readers do not matter.
		let g = m.try_read();
		check!(is_ok(&g), "the lock stays locked");
		probe(&m, &v);
		drop(g);
		check!(m.try_write().is_ok(), "the lock stays locked");
	}

	/// lazily initialised values
	fn lazy(8, 8) {
		let c: LazyCell<Probe> = LazyCell::new(Probe::arb);
		let first: bool = any();
		let v = if first { Some(*c) } else { None };
		let a = outcome(&c);
		let v = v.unwrap_or(*c);
		let b = outcome(&v);
		same_octets(&a, &b);
		check!(a.err == b.err, "another failure is reported");
		check!(c.octets == v.octets && c.len == v.len, "encoding changes the value");
		cover!(!first && a.err.is_none(), "initialised by encoding");
	}

	/// lazily initialised values shared by threads
	fn lazy_lock(8, 8) {
		let c: LazyLock<Probe> = LazyLock::new(Probe::arb);
		let first: bool = any();
		let v = if first { Some(*c) } else { None };
		let a = outcome(&c);
		let v = v.unwrap_or(*c);
		let b = outcome(&v);
		same_octets(&a, &b);
		check!(a.err == b.err, "another failure is reported");
		check!(c.octets == v.octets && c.len == v.len, "encoding changes the value");
		cover!(!first && a.err.is_none(), "initialised by encoding");
	}

	/// one-member tuples, Wrapping, Saturating
	fn plain(8, 8) {
		let v = Probe::arb();
		probe(&(v,), &v);
		probe(&Wrapping(v), &v);
		probe(&Saturating(v), &v);
	}

	/// wrappers of numbers that may be refused
	fn numbers(8, 8) {
		let v: usize = any();
		number(&&v, v);
		number(&Box::new(v), v);
		number(&Rc::new(v), v);
		number(&Arc::new(v), v);
		number(&Cow::<usize>::Owned(v), v);
		number(&Cell::new(v), v);
		number(&Wrapping(v), v);
		number(&Saturating(v), v);
		number(&(v,), v);
		number(&AtomicUsize::new(v), v);
	}

	/// locks of numbers that may be refused
	fn numbers_locked(8, 8) {
		let v: usize = any();
		number(&Mutex::new(v), v);
		number(&RwLock::new(v), v);
		if let Some(n) = NonZero::new(v) { number(&n, v); }
	}

	/// a lock or borrow is held while the value is encoded
	fn held_mutex(8, 8) {
		let at = Cell::new(std::ptr::null::<Mutex<Watched>>());
		let probe = || unsafe { (*at.get()).try_lock().is_err() };
		let m = Mutex::new(Watched { locked: &probe });
		at.set(&m);
		let r = outcome(&m);
		check!(r.pos == 1, "the value is not encoded once");
		check!(m.try_lock().is_ok(), "the mutex stays locked");
		cover!(r.err.is_some(), "refused");
	}

	/// a read-write lock is held while the value is encoded
	fn held_rw_lock(8, 8) {
		let at = Cell::new(std::ptr::null::<RwLock<Watched>>());
		let probe = || unsafe { (*at.get()).try_write().is_err() };
		let m = RwLock::new(Watched { locked: &probe });
		at.set(&m);
		let r = outcome(&m);
		check!(r.pos == 1, "the value is not encoded once");
		check!(m.try_write().is_ok(), "the lock stays locked");
		cover!(r.err.is_some(), "refused");
	}

	/// a reference cell is borrowed while the value is encoded
	fn held_ref_cell(8, 8) {
		let at = Cell::new(std::ptr::null::<RefCell<Watched>>());
		let probe = || unsafe { (*at.get()).try_borrow_mut().is_err() };
		let m = RefCell::new(Watched { locked: &probe });
		at.set(&m);
		let r = outcome(&m);
		check!(r.pos == 1, "the value is not encoded once");
		check!(m.try_borrow_mut().is_ok(), "the cell stays borrowed");
		cover!(r.err.is_some(), "refused");
	}

	/// references to slices of any length
	fn slices(8, 8) {
		let raw: [u16; 3] = any();
		let v = &raw[..up_to(3)];
		alike(&v, v);
		cover!(v.len() == 3, "full");
	}

	/// boxed slices of any length, and vectors
	fn slices_boxed(8, 8) {
		let raw: [u16; 3] = any();
		let v = &raw[..up_to(3)];
		if any() {
			let b: Box<[u16]> = v.into();
			alike(&b, v);
		} else {
			alike(&v.to_vec(), v);
		}
	}

	/// counted slices
	fn slices_counted(8, 8) {
		let raw: [u16; 3] = any();
		let r: Rc<[u16]> = Rc::new(raw);
		alike(&r, &raw[..]);
		let r: Arc<[u16]> = Arc::new(raw);
		alike(&r, &raw[..]);
	}

	/// borrowed-or-owned slices of any length
	fn slices_cow(8, 8) {
		let raw: [u16; 3] = any();
		let v = &raw[..up_to(3)];
		let c: Cow<[u16]> = if any() { Cow::Borrowed(v) } else { Cow::Owned(v.to_vec()) };
		alike(&c, v);
		cover!(v.len() == 3, "full");
	}

	/// locks and cells of slices
	fn slices_locked(8, 8) {
		let raw: [u8; 3] = any();
		let m = Mutex::new(raw);
		let w: &Mutex<[u8]> = &m;
		alike(w, &raw[..]);
		let m = RwLock::new(raw);
		let w: &RwLock<[u8]> = &m;
		alike(w, &raw[..]);
		let m = RefCell::new(raw);
		let w: &RefCell<[u8]> = &m;
		alike(w, &raw[..]);
	}

	/// pointers to strings
	fn strings(8, 8) {
		let b: [u8; 3] = any();
		assume(utf8_valid_up_to(&b) == 3);
		let v = unsafe { std::str::from_utf8_unchecked(&b) };
		let (a, raw) = (outcome(v), outcome(&b));
		check!(a.pos == 5 && raw.pos == 3, "another number of octets is written");
		alike(&v, v);
		alike(&Box::<str>::from(v), v);
		alike(&String::from(v), v);
		alike(&Cow::Borrowed(v), v);
		alike(&Cow::<str>::Owned(v.to_owned()), v);
	}

	/// atomics encode as the number they hold, and keep it
	fn atomics(20, 20) {
		macro_rules! one {
			($($a:ident($t:ty)),*) => { $(
				let v: $t = any();
				let a = $a::new(v);
				alike(&a, &v);
				check!(a.into_inner() == v, "encoding changes the value");
				max_is!($t: $a);
			)* };
		}
		one!(AtomicBool(bool), AtomicU8(u8), AtomicI8(i8), AtomicU16(u16), AtomicI16(i16), AtomicU32(u32), AtomicI32(i32));
		one!(AtomicU64(u64), AtomicI64(i64), AtomicUsize(usize), AtomicIsize(isize));
	}

	/// non-zero numbers encode as their number
	fn non_zero(20, 20) {
		macro_rules! one {
			($($t:ty),*) => { $(
				let v: $t = any();
				if let Some(n) = NonZero::new(v) { alike(&n, &v); }
				max_is!($t: NonZero<$t>);
			)* };
		}
		one!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
	}

	/// wrappers declare the maximum size of what they hold
	fn sizes(4, 4) {
		macro_rules! all {
			($($t:ty),*) => { $(
				max_is!($t: &$t, &mut $t, Box<$t>, Rc<$t>, Arc<$t>, Cow<'static, $t>, Cell<$t>, RefCell<$t>, Mutex<$t>, RwLock<$t>,
					LazyCell<$t>, LazyLock<$t>, ($t,), Wrapping<$t>, Saturating<$t>);
			)* };
		}
		all!(u8, u64, u128, (), usize, Option<u32>, [u16; 5], (u8, u32), Probe, char, Duration);
		max_is!(SizedSlice<u16, 3>: Box<SizedSlice<u16, 3>>, Rc<SizedSlice<u16, 3>>, Mutex<SizedSlice<u16, 3>>);
		max_is!(SizedStr<7>: Box<SizedStr<7>>, Arc<SizedStr<7>>, RefCell<SizedStr<7>>, &SizedStr<7>);
		check!(<Mutex<Box<RefCell<[u32; 2]>>> as SizedEncode>::MAX_ENCODED_SIZE == 8, "another maximum size is declared");
	}

	/// decoding pointers
	fn decode_pointers(8, 8) {
		decoded::<Box<Probe>>(|w| **w);
		decoded::<Rc<Probe>>(|w| { check!(Rc::strong_count(w) == 1, "another value is decoded"); **w });
		decoded::<Arc<Probe>>(|w| { check!(Arc::strong_count(w) == 1, "another value is decoded"); **w });
	}

	/// decoding borrowed-or-owned values and cells
	fn decode_cells(8, 8) {
		decoded::<Cow<'static, Probe>>(|w| **w);
		decoded::<Cell<Probe>>(|w| w.get());
		decoded::<RefCell<Probe>>(|w| match w.try_borrow_mut() { Ok(v) => *v, Err(_) => panic!("a borrowed cell is decoded") });
	}

	/// decoding locks
	fn decode_locks(8, 8) {
		decoded::<Mutex<Probe>>(|w| match w.try_lock() { Ok(v) => *v, Err(_) => panic!("a locked mutex is decoded") });
		decoded::<RwLock<Probe>>(|w| match w.try_write() { Ok(v) => *v, Err(_) => panic!("a locked lock is decoded") });
	}

	/// decoding one-member tuples, Wrapping, Saturating
	fn decode_plain(8, 8) {
		decoded::<(Probe,)>(|w| w.0);
		decoded::<Wrapping<Probe>>(|w| w.0);
		decoded::<Saturating<Probe>>(|w| w.0);
	}

	/// decoding non-zero numbers is decoding the number, unless it is zero
	fn decode_non_zero(20, 20) {
		macro_rules! one {
			($($t:ty),*) => { $(
				let raw: [u8; 16] = any();
				let ((a, n), (b, m)) = (dec::<NonZero<$t>>(&raw), dec::<$t>(&raw));
				check!(n == m, "another number of octets is consumed");
				let Ok(b) = b else { panic!() };
				match a {
					Ok(a) => check!(a.get() == b, "another value is decoded"),
					Err(_) => check!(b == 0, "a number is refused"),
				}
			)* };
		}
		one!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
	}

	/// decoding atomics is decoding the number
	fn decode_atomics(20, 20) {
		macro_rules! one {
			($($a:ident($t:ty)),*) => { $(
				let raw: [u8; 8] = any();
				let ((a, n), (b, m)) = (dec::<$a>(&raw), dec::<$t>(&raw));
				check!(n == m, "another number of octets is consumed");
				match (a, b) {
					(Ok(a), Ok(b)) => check!(a.into_inner() == b, "another value is decoded"),
					_ => check!(false, "a number is refused"),
				}
			)* };
		}
		one!(AtomicBool(bool), AtomicU8(u8), AtomicI8(i8), AtomicU16(u16), AtomicI16(i16), AtomicU32(u32), AtomicI32(i32));
		one!(AtomicU64(u64), AtomicI64(i64), AtomicUsize(usize), AtomicIsize(isize));
	}

	/// wrappers within wrappers
	fn nested(8, 8) {
		let v = Probe::arb();
		probe(&Box::new(Rc::new(Cell::new((Wrapping(v),)))), &v);
		probe(&Mutex::new(Box::new(&v)), &v);
		probe(&Arc::new(RwLock::new(Saturating(&&v))), &v);
		alike(&RefCell::new(Box::new(v)), &v);
	}
}
