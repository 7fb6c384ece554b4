//! C05: values the format cannot represent are refused, never truncated.
use crate::groups::prelude::*;
use oct::error::{CollectionEncodeError, EnumEncodeError, IsizeEncodeError, ItemEncodeError, RefCellEncodeError, UsizeEncodeError};
use std::collections::{HashMap, HashSet};
use std::ffi::CStr;
use std::hash::{BuildHasherDefault, Hasher};
use std::mem::forget;

fn fits_usize(v: usize) -> bool {
	v <= 65535
}

fn fits_isize(v: isize) -> bool {
	v >= -32768 && v <= 32767
}

/// Encodes into octets that hold `fill`; returns the position and whether
/// the octets beyond it are untouched.
fn put<T: Encode + ?Sized>(v: &T, buf: &mut [u8; CAP]) -> (Result<(), T::Error>, usize) {
	let mut o = Output::new(buf);
	let r = v.encode(&mut o);
	let n = o.position();
	(r, n)
}

/// A number is refused with its value and nothing written, or accepted.
macro_rules! number {
	($v:expr, $fits:expr, $raw:expr, $e:ident => $got:expr) => {{
		let fill: u8 = any();
		let mut buf = [fill; CAP];
		let v = $v;
		let (r, n) = put(&v, &mut buf);
		match r {
			Ok(()) => {
				check!($fits, "a value beyond the limits is accepted");
				check!(n == 2, "an accepted value is not encoded in two octets");
				check!(buf[0] == $raw as u8 && buf[1] == ($raw >> 8) as u8, "an accepted value is altered");
				cover!(true, "accepted");
			}
			Err($e) => {
				check!(!$fits, "a value within the limits is refused");
				check!($got == $raw, "the error reports another value");
				check!(n == 0, "something was written before the refusal");
				check!(buf[0] == fill && buf[1] == fill, "the output was changed before the refusal");
				cover!(true, "refused");
			}
		}
	}};
}

/// The error of a collection of pointer-sized numbers.
fn first_bad_usize<const N: usize>(a: &[usize; N], len: usize) -> usize {
	let mut at = len;
	let mut i = N;
	while i > 0 {
		i -= 1;
		if i < len && !fits_usize(a[i]) {
			at = i;
		}
	}
	at
}

/// `v` holds the first `len` of `a` in order.
fn items<T, const N: usize>(v: &T, a: &[usize; N], len: usize)
where
	T: Encode<Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, UsizeEncodeError>>> + ?Sized,
{
	let mut buf = [0u8; CAP];
	let (r, n) = put(v, &mut buf);
	let bad = first_bad_usize(a, len);
	match r {
		Ok(()) => {
			check!(bad == len, "an element beyond the limits is accepted");
			check!(n == 2 + 2 * len, "the encoding is truncated");
			cover!(true, "accepted");
		}
		Err(CollectionEncodeError::BadItem(ItemEncodeError { index, error: UsizeEncodeError(value) })) => {
			check!(bad < len, "elements within the limits are refused");
			check!(index == bad, "the error reports another index");
			check!(value == a[bad], "the error reports another value");
			cover!(index == 0, "refused the first");
			cover!(N == 1 || index == 1, "refused the second");
		}
		Err(_) => panic!("another error"),
	}
}

fn arr<const N: usize>() -> [usize; N] {
	[(); N].map(|()| any())
}

fn arb_len(max: usize) -> usize {
	let n: usize = any();
	assume(n <= max);
	n
}

/// Refuses to be encoded.
#[derive(Clone, Copy)]
struct Nope;

impl Encode for Nope {
	type Error = Nope;

	fn encode(&self, _: &mut Output) -> Result<(), Nope> {
		Err(Nope)
	}
}

/// Encodes to nothing.
#[derive(Clone, Copy)]
struct Yes;

/// A slice of any length.
fn zst<'a, T>(len: usize) -> &'a [T] {
	assert!(size_of::<T>() == 0);
	// SAFETY: The elements are zero-sized.
	unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), len) }
}

/// The index of a refused element, as collections report it.
trait At {
	fn at(&self) -> usize;
}

impl<E> At for ItemEncodeError<usize, E> {
	fn at(&self) -> usize {
		self.index
	}
}

impl<E> At for (usize, E) {
	fn at(&self) -> usize {
		self.0
	}
}

/// A collection of `len` elements that all refuse.
fn length<T, I: At>(v: &T, len: usize)
where
	T: Encode<Error = CollectionEncodeError<UsizeEncodeError, I>> + ?Sized,
{
	let mut buf = [0u8; CAP];
	let (r, n) = put(v, &mut buf);
	match r {
		Ok(()) => {
			check!(len == 0, "refusing elements are accepted");
			check!(n == 2 && buf[0] == 0 && buf[1] == 0, "the empty collection is altered");
			cover!(true, "empty");
		}
		Err(CollectionEncodeError::BadLength(UsizeEncodeError(l))) => {
			check!(len > 65535, "a length within the limit is refused");
			check!(l == len, "the error reports another length");
			check!(n == 0, "something was written before the refusal");
			cover!(true, "too long");
		}
		Err(CollectionEncodeError::BadItem(e)) => {
			check!(len >= 1 && len <= 65535, "a length beyond the limit is accepted");
			check!(e.at() == 0, "the error reports another index");
			check!(n == 2 && buf[0] as usize | (buf[1] as usize) << 8 == len, "the length is altered");
			cover!(len > 1, "accepted length");
		}
	}
}

/// Makes a collection of one element claim to hold `len`: the word that its
/// length is read from is found by trial. Only the first element may be
/// visited then.
fn claim<C>(c: &mut C, of: fn(&C) -> usize, len: usize) {
	use std::mem::MaybeUninit;

	let words = size_of::<C>() / size_of::<usize>();
	let p = std::ptr::from_mut(c).cast::<MaybeUninit<usize>>();
	let mut found = false;
	let mut i = 0;
	while i < words {
		// SAFETY: The word is within the collection and is restored unless it
		// is its length.
		unsafe {
			let w = *p.add(i);
			*p.add(i) = MaybeUninit::new(77);
			if of(c) == 77 {
				*p.add(i) = MaybeUninit::new(len);
				found = true;
				break;
			}
			*p.add(i) = w;
		}
		i += 1;
	}
	// Otherwise nothing can be said.
	assert!(found && of(c) == len, "the length is not found");
}

impl std::hash::Hash for Nope {
	fn hash<H: Hasher>(&self, _: &mut H) {}
}

impl PartialEq for Nope {
	fn eq(&self, _: &Self) -> bool {
		true
	}
}

impl Eq for Nope {}

static BIG: [u8; 65536 + 3] = {
	let mut b = [b'a'; 65536 + 3];
	b[65536 + 2] = 0;
	b
};

/// More than 65535 octets are refused.
macro_rules! octets {
	($v:expr, $len:expr) => {{
		let mut buf = [0u8; CAP];
		let len: usize = $len;
		let (r, n) = put($v, &mut buf);
		match r {
			Err(CollectionEncodeError::BadLength(UsizeEncodeError(l))) => {
				check!(l == len, "the error reports another length");
				check!(n == 0, "something was written before the refusal");
				cover!(true, "too long");
			}
			_ => panic!("too many octets are accepted"),
		}
	}};
}

/// A length from 65536 on.
fn long(max: usize) -> usize {
	let len: usize = any();
	assume(len >= 65536 && len <= max);
	len
}

/// At most 65535 octets are never refused. The output only holds their count,
/// so that the first octet panics.
fn short<T: Encode + ?Sized>(v: &T) {
	let mut buf = [0u8; 2];
	let mut o = Output::new(&mut buf);
	if let Some(r) = crate::sym::may_panic(|| v.encode(&mut o)) {
		let refused = !is_ok(&r);
		forget(r);
		check!(!refused, "a length within the limit is refused");
	}
}

/// Refuses to be encoded unless the first member is true.
#[derive(Clone, Copy)]
struct Key(bool, u8);

struct Refused(u8);

impl Encode for Key {
	type Error = Refused;

	fn encode(&self, o: &mut Output) -> Result<(), Refused> {
		if !self.0 {
			return Err(Refused(self.1));
		}
		let _ = self.1.encode(o);
		Ok(())
	}
}

impl std::hash::Hash for Key {
	fn hash<H: Hasher>(&self, _: &mut H) {}
}

impl PartialEq for Key {
	fn eq(&self, o: &Self) -> bool {
		self.1 == o.1
	}
}

impl Eq for Key {}

#[derive(Default, Clone)]
pub struct Const;

impl Hasher for Const {
	fn finish(&self) -> u64 {
		0
	}
	fn write(&mut self, _: &[u8]) {}
	fn write_u8(&mut self, _: u8) {}
	fn write_usize(&mut self, _: usize) {}
}

type B = BuildHasherDefault<Const>;

harnesses! {
	/// usize
	fn unsigned(6, 6) {
		let x: usize = any();
		number!(x, fits_usize(x), x, e => { let UsizeEncodeError(v) = e; v });
	}

	/// isize
	fn signed(6, 6) {
		let x: isize = any();
		number!(x, fits_isize(x), x, e => { let IsizeEncodeError(v) = e; v });
	}

	/// NonZero<usize>, Wrapping<usize>, AtomicUsize, (usize,)
	fn unsigned_wrapped(6, 6) {
		let x: usize = any();
		if x != 0 {
			number!(NonZero::new(x).unwrap(), fits_usize(x), x, e => e.0);
		}
		number!(Wrapping(x), fits_usize(x), x, e => e.0);
		number!(AtomicUsize::new(x), fits_usize(x), x, e => e.0);
		number!((x,), fits_usize(x), x, e => e.0);
	}

	/// Saturating<usize>, Cell<usize>, &usize, Box<usize>
	fn unsigned_pointed(6, 6) {
		let x: usize = any();
		number!(Saturating(x), fits_usize(x), x, e => e.0);
		number!(Cell::new(x), fits_usize(x), x, e => e.0);
		number!(&x, fits_usize(x), x, e => e.0);
		number!(Box::new(x), fits_usize(x), x, e => e.0);
	}

	/// NonZero<isize>, Saturating<isize>, AtomicIsize, (isize,)
	fn signed_wrapped(6, 6) {
		let x: isize = any();
		if x != 0 {
			number!(NonZero::new(x).unwrap(), fits_isize(x), x, e => e.0);
		}
		number!(Saturating(x), fits_isize(x), x, e => e.0);
		number!(AtomicIsize::new(x), fits_isize(x), x, e => e.0);
		number!((x,), fits_isize(x), x, e => e.0);
	}

	/// the members of tuples and ranges of usize, isize
	fn members(6, 6) {
		let (x, y): (usize, usize) = (any(), any());
		let mut buf = [0u8; CAP];
		let (r, n) = put(&(x..y), &mut buf);
		match r {
			Ok(()) => check!(fits_usize(x) && fits_usize(y) && n == 4, "a value beyond the limits is accepted"),
			Err(UsizeEncodeError(v)) => {
				check!(!(fits_usize(x) && fits_usize(y)), "a value within the limits is refused");
				check!(v == if fits_usize(x) { y } else { x }, "the error reports another value");
				cover!(fits_usize(x), "refused the second");
			}
		}

		let (r, n) = put(&(x..=y), &mut buf);
		match r {
			Ok(()) => check!(fits_usize(x) && fits_usize(y) && n == 4, "a value beyond the limits is accepted"),
			Err(UsizeEncodeError(v)) => check!(v == if fits_usize(x) { y } else { x } && !(fits_usize(x) && fits_usize(y)), "the error is wrong"),
		}

		let (a, b): (isize, isize) = (any(), any());
		let (r, n) = put(&(a, b), &mut buf);
		match r {
			Ok(()) => check!(fits_isize(a) && fits_isize(b) && n == 4, "a value beyond the limits is accepted"),
			Err(IsizeEncodeError(v)) => {
				check!(!(fits_isize(a) && fits_isize(b)), "a value within the limits is refused");
				check!(v == if fits_isize(a) { b } else { a }, "the error reports another value");
				cover!(fits_isize(a), "refused the second");
			}
		}
	}

	/// Option, Result, Bound of usize, isize
	fn tagged(6, 6) {
		let x: usize = any();
		let mut buf = [0u8; CAP];

		let (r, n) = put(&Some(x), &mut buf);
		match r {
			Ok(()) => check!(fits_usize(x) && n == 3, "a value beyond the limits is accepted"),
			Err(UsizeEncodeError(v)) => check!(v == x && !fits_usize(x), "the error is wrong"),
		}

		let v: Result<usize, usize> = if any() { Ok(x) } else { Err(x) };
		let (r, n) = put(&v, &mut buf);
		match r {
			Ok(()) => check!(fits_usize(x) && n == 3, "a value beyond the limits is accepted"),
			Err(UsizeEncodeError(v)) => check!(v == x && !fits_usize(x), "the error is wrong"),
		}

		let y: isize = any();
		let v = if any() { Bound::Included(y) } else { Bound::Excluded(y) };
		let (r, n) = put(&v, &mut buf);
		match r {
			Ok(()) => check!(fits_isize(y) && n == 3, "a value beyond the limits is accepted"),
			Err(EnumEncodeError::BadField(IsizeEncodeError(v))) => {
				check!(v == y && !fits_isize(y), "the error is wrong");
				cover!(true, "refused");
			}
			Err(_) => panic!("another error"),
		}
	}

	/// [usize; 3]
	fn array_items(6, 6) {
		let a = arr::<3>();
		let mut buf = [0u8; CAP];
		let (r, n) = put(&a, &mut buf);
		let bad = first_bad_usize(&a, 3);
		match r {
			Ok(()) => check!(bad == 3 && n == 6, "an element beyond the limits is accepted"),
			Err(CollectionEncodeError::BadItem(ItemEncodeError { index, error: UsizeEncodeError(value) })) => {
				check!(bad < 3, "elements within the limits are refused");
				check!(index == bad && value == a[bad], "the error reports another element");
				cover!(index == 2, "refused the last");
			}
			Err(_) => panic!("another error"),
		}
	}

	/// [usize] of up to 3
	fn slice_items(6, 6) {
		let a = arr::<3>();
		let len = arb_len(3);
		items(&a[..len], &a, len);
	}

	/// Vec<usize> of up to 3
	fn vec_items(6, 6) {
		let a = arr::<3>();
		let len = arb_len(3);
		let mut v = Vec::from(a);
		unsafe { v.set_len(len) };
		items(&v, &a, len);
	}

	/// SizedSlice<usize, 3>
	fn sized_items(6, 6) {
		let a = arr::<3>();
		let len = arb_len(3);
		let mut v = SizedSlice::from(a);
		unsafe { v.set_len(len) };
		items(&v, &a, len);
	}

	/// LinkedList<usize> of 2
	fn list_items(6, 6) {
		let a = arr::<2>();
		let mut v = LinkedList::new();
		v.push_back(a[0]);
		v.push_back(a[1]);
		let mut buf = [0u8; CAP];
		let (r, n) = put(&v, &mut buf);
		let bad = first_bad_usize(&a, 2);
		match r {
			Ok(()) => check!(bad == 2 && n == 6, "an element beyond the limits is accepted"),
			Err(CollectionEncodeError::BadItem((index, UsizeEncodeError(value)))) => {
				check!(bad < 2, "elements within the limits are refused");
				check!(index == bad && value == a[bad], "the error reports another element");
				cover!(index == 1, "refused the last");
			}
			Err(_) => panic!("another error"),
		}
		forget(v);
	}

	/// HashSet<usize> of 1
	fn set_items(5, 5) {
		let a = arr::<1>();
		let mut v: HashSet<usize, B> = HashSet::with_capacity_and_hasher(1, B::default());
		v.insert(a[0]);
		items(&v, &a, 1);
		forget(v);
	}

	/// HashMap of 1, whose key or value may refuse
	fn map_items(5, 5) {
		let (k, x): (bool, bool) = (any(), any());
		let mut v: HashMap<Key, Key, B> = HashMap::with_capacity_and_hasher(1, B::default());
		v.insert(Key(k, 1), Key(x, 2));
		let mut buf = [0u8; CAP];
		let (r, n) = put(&v, &mut buf);
		match r {
			Ok(()) => check!(k && x && n == 4 && buf[2] == 1 && buf[3] == 2, "an element beyond the limits is accepted"),
			Err(CollectionEncodeError::BadItem(ItemEncodeError { index, error: Refused(value) })) => {
				check!(index == 0, "the error reports another index");
				check!(!(k && x) && value == if k { 2 } else { 1 }, "the error reports another value");
				cover!(k, "refused the value");
			}
			Err(_) => panic!("another error"),
		}
		forget(v);
	}

	/// nested collections report the index of the inner element last
	fn nested_items(6, 6) {
		let a = arr::<2>();
		let b = [SizedSlice::<usize, 1>::from([a[0]]), SizedSlice::from([a[1]])];
		let mut buf = [0u8; CAP];
		let (r, _) = put(&b[..], &mut buf);
		let bad = first_bad_usize(&a, 2);
		match r {
			Ok(()) => check!(bad == 2, "an element beyond the limits is accepted"),
			Err(CollectionEncodeError::BadItem(ItemEncodeError {
				index,
				error: CollectionEncodeError::BadItem(ItemEncodeError { index: inner, error: UsizeEncodeError(value) }),
			})) => {
				check!(bad < 2 && index == bad && inner == 0 && value == a[bad], "the error reports another element");
				cover!(index == 1, "refused the last");
			}
			Err(_) => panic!("another error"),
		}
	}

	/// slices of every length
	fn slice_length(4, 4) {
		let len: usize = any();
		assume(len <= isize::MAX as usize);
		length(zst::<Nope>(len), len);
		cover!(len == 65535, "the limit");
		cover!(len == 65536, "beyond the limit");
	}

	/// vectors of every length
	fn vec_length(4, 4) {
		let len: usize = any();
		assume(len <= isize::MAX as usize);
		let mut v: Vec<Nope> = Vec::new();
		unsafe { v.set_len(len) };
		length(&v, len);
		forget(v);
	}

	/// SizedSlice of every length, of a large capacity
	fn sized_length(4, 4) {
		let len: usize = any();
		assume(len <= 1 << 40);
		let mut v: SizedSlice<Nope, { 1 << 40 }> = SizedSlice::default();
		unsafe { v.set_len(len) };
		length(&v, len);
		forget(v);
	}

	/// borrowed, boxed and wrapped slices of every length
	fn wrapped_length(4, 4) {
		let len: usize = any();
		assume(len <= isize::MAX as usize);
		let s = zst::<Nope>(len);
		length(&s, len);
		length(&Cow::Borrowed(s), len);
	}

	/// linked lists of every length
	fn list_length(5, 5) {
		let len: usize = any();
		let mut v = LinkedList::new();
		v.push_back(Nope);
		claim(&mut v, LinkedList::len, len);
		length(&v, len);
		forget(v);
		cover!(len == 65535, "the limit");
		cover!(len == 65536, "beyond the limit");
	}

	/// hash sets of every length
	fn set_length(5, 5) {
		let len: usize = any();
		let mut v: HashSet<Nope, B> = HashSet::with_capacity_and_hasher(1, B::default());
		v.insert(Nope);
		claim(&mut v, HashSet::len, len);
		length(&v, len);
		forget(v);
		cover!(len == 65535, "the limit");
		cover!(len == 65536, "beyond the limit");
	}

	/// hash maps of every length
	fn map_length(5, 5) {
		let len: usize = any();
		let mut v: HashMap<Nope, Nope, B> = HashMap::with_capacity_and_hasher(1, B::default());
		v.insert(Nope, Nope);
		claim(&mut v, HashMap::len, len);
		length(&v, len);
		forget(v);
		cover!(len == 65535, "the limit");
		cover!(len == 65536, "beyond the limit");
	}

	/// 65536 octets and more
	fn octets_long(4, 4) {
		let len = long(65536 + 3);
		octets!(&BIG[..len], len);
	}

	/// str of 65536 octets and more
	fn str_long(4, 4) {
		let len = long(65536 + 3);
		// SAFETY: All octets are ASCII.
		octets!(unsafe { std::str::from_utf8_unchecked(&BIG[..len]) }, len);
	}

	/// CStr of 65538 octets
	fn c_str_long(4, 4) {
		// SAFETY: Only the last octet is null.
		octets!(unsafe { CStr::from_bytes_with_nul_unchecked(&BIG[..]) }, 65536 + 2);
	}

	/// String of 65536 octets and more
	fn string_long(4, 4) {
		let len = long(65536 + 3);
		// SAFETY: All octets are ASCII, and the string is not dropped.
		let s = std::mem::ManuallyDrop::new(unsafe { String::from_raw_parts(BIG.as_ptr() as *mut u8, len, len) });
		octets!(&*s, len);
	}

	/// CString of 65538 octets
	fn c_string_long(4, 4) {
		// SAFETY: Only the last octet is null, and the string is not dropped.
		let s = std::mem::ManuallyDrop::new(unsafe { std::ffi::CString::from_vec_with_nul_unchecked(
			Vec::from_raw_parts(BIG.as_ptr() as *mut u8, 65536 + 3, 65536 + 3)) });
		octets!(&*s, 65536 + 2);
	}

	/// str, [u8] and String of 1 to 65535 octets
	fn octets_short_mp(4, 4) {
		let len: usize = any();
		assume(len >= 1 && len <= 65535);
		let b = &BIG[..len];
		// SAFETY: All octets are ASCII, and the string is not dropped.
		let s = unsafe { std::str::from_utf8_unchecked(b) };
		let t = std::mem::ManuallyDrop::new(unsafe { String::from_raw_parts(BIG.as_ptr() as *mut u8, len, len) });
		let k: u8 = any();
		cover!(len == 65535, "the limit");
		match k {
			0 => short(b),
			1 => short(s),
			_ => short(&*t),
		}
	}

	/// SizedStr of 65536 octets and more
	fn sized_str_long(4, 4) {
		let len = long(65536 + 2);
		let b = [b'a'; 65536 + 2];
		// SAFETY: All octets are ASCII.
		let s: SizedStr<{ 65536 + 2 }> = unsafe { SizedStr::from_raw_parts(b, len) };
		octets!(&s, len);
	}

	/// RefCell that is not, is mutably or is immutably borrowed
	fn ref_cell(6, 6) {
		let x: usize = any();
		let c = RefCell::new(x);
		let mut buf = [0u8; CAP];

		let w = c.borrow_mut();
		let (r, n) = put(&c, &mut buf);
		match r {
			Err(RefCellEncodeError::BadBorrow(_)) => check!(n == 0, "something was written before the refusal"),
			_ => panic!("a mutably borrowed cell is accepted"),
		}
		drop(w);

		let shared: bool = any();
		let b = if shared { Some(c.borrow()) } else { None };
		let (r, n) = put(&c, &mut buf);
		match r {
			Ok(()) => check!(fits_usize(x) && n == 2, "a value beyond the limits is accepted"),
			Err(RefCellEncodeError::BadValue(UsizeEncodeError(v))) => {
				check!(!fits_usize(x), "a value within the limits is refused");
				check!(v == x && n == 0, "the error is wrong");
			}
			Err(_) => panic!("a readable cell is refused"),
		}
		cover!(shared, "shared");
		drop(b);
		check!(c.try_borrow_mut().is_ok(), "the cell stays borrowed");
	}
}
