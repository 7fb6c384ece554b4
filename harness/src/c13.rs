//! C13: a size-limited string is always valid UTF-8 within its limit.
use crate::groups::prelude::*;
use oct::error::{LengthError, StringError, Utf8Error};
use std::borrow::{Borrow, BorrowMut};
use std::ffi::OsStr;
use std::path::Path;
use std::str::FromStr;

/// Limit.
const N: usize = if cfg!(feature = "thorough") { 6 } else { 4 };

fn up_to(max: usize) -> usize {
	let n: usize = any();
	assume(n <= max);
	n
}

/// Any text of at most `M` octets.
fn text<const M: usize>() -> ([u8; M], usize) {
	let b: [u8; M] = any();
	assume(utf8_valid_up_to(&b) == M);
	let len = up_to(M);
	// The text ends at the end of a character.
	assume(len == M || b[len] & 0xC0 != 0x80);
	(b, len)
}

fn sized<const N: usize>(s: &SizedStr<N>, len: usize) {
	check!(s.capacity() == N, "the limit is wrong");
	check!(s.len() == len, "the length is wrong");
	check!(len <= N, "the length exceeds the limit");
	check!(s.is_empty() == (len == 0), "is_empty is wrong");
	check!(s.is_full() == (len == N), "is_full is wrong");
	check!(s.as_bytes().len() == len && s.as_str().len() == len, "a view has another length");
}

/// `s` holds exactly the first `len` octets of `want`.
fn holds<const N: usize, const M: usize>(s: &SizedStr<N>, want: &[u8; M], len: usize) {
	sized(s, len);
	let at = up_to(M - 1);
	check!(at >= len || s.as_bytes()[at] == want[at], "another text is held");
}

/// Any string; the octets beyond the length are arbitrary.
fn string() -> (SizedStr<N>, [u8; N], usize) {
	let (b, len) = text::<N>();
	let mut raw = b;
	let mut k = 0;
	let junk: [u8; N] = any();
	while k < N {
		if k >= len { raw[k] = junk[k] }
		k += 1;
	}
	let s = unsafe { SizedStr::from_raw_parts(raw, len) };
	sized(&s, len);
	(s, raw, len)
}

/// The outcome of a construction from a valid text.
fn limited<const C: usize, const M: usize>(r: Result<SizedStr<C>, StringError>, b: &[u8; M], len: usize) {
	match r {
		Ok(s) => {
			check!(len <= C, "a text beyond the limit is accepted");
			holds(&s, b, len);
			cover!(len == C, "full");
		}
		Err(StringError::SmallBuffer(LengthError { capacity, len: l })) => {
			check!(len > C, "a text within the limit is refused");
			check!(capacity == C && l == len, "the error is wrong");
		}
		Err(_) => check!(false, "the error is wrong"),
	}
}

/// Octets of length `L` into a string of limit `C`.
fn from_utf8<const L: usize, const C: usize>() {
	let b: [u8; L] = [(); L].map(|()| any());
	let valid = utf8_valid_up_to(&b);
	let accepted = match SizedStr::<C>::from_utf8(&b) {
		Ok(s) => {
			check!(L <= C, "octets beyond the limit are accepted");
			check!(valid == L, "ill-formed octets are accepted");
			sized(&s, L);
			let at = up_to(L);
			check!(at >= L || s.as_bytes()[at] == b[at], "another text is held");
			true
		}
		Err(StringError::SmallBuffer(LengthError { capacity, len })) => {
			check!(L > C, "octets within the limit are refused");
			check!(capacity == C && len == L, "the error is wrong");
			false
		}
		Err(StringError::BadUtf8(Utf8Error { value, index })) => {
			check!(L <= C, "the error is wrong");
			check!(valid < L, "well-formed octets are refused");
			check!(index == valid && value == b[valid % L], "the error is wrong");
			false
		}
		_ => panic!("the error is wrong"),
	};
	cover!(accepted || L > C, "accepted");
	cover!(!accepted || L == 0, "refused");
}

/// The UTF-8 octets of a character, after the Unicode standard.
fn utf8(c: char) -> ([u8; 4], usize) {
	let c = c as u32;
	if c < 0x80 {
		([c as u8, 0, 0, 0], 1)
	} else if c < 0x800 {
		([0xC0 | (c >> 6) as u8, 0x80 | (c & 0x3F) as u8, 0, 0], 2)
	} else if c < 0x10000 {
		([0xE0 | (c >> 12) as u8, 0x80 | (c >> 6 & 0x3F) as u8, 0x80 | (c & 0x3F) as u8, 0], 3)
	} else {
		([0xF0 | (c >> 18) as u8, 0x80 | (c >> 12 & 0x3F) as u8, 0x80 | (c >> 6 & 0x3F) as u8, 0x80 | (c & 0x3F) as u8], 4)
	}
}

struct Chars<const K: usize> {
	data: [char; K],
	left: usize,
	at: usize,
}

impl<const K: usize> Iterator for Chars<K> {
	type Item = char;
	fn next(&mut self) -> Option<char> {
		let at = self.at;
		self.at += 1;
		if at < self.left { Some(self.data[at]) } else { None }
	}
}

fn collect<const C: usize, const K: usize>() {
	let data: [char; K] = any();
	let left = up_to(K);
	let s: SizedStr<C> = Chars { data, left, at: 0 }.collect();

	let mut want = [0u8; 32];
	let (mut len, mut over) = (0, false);
	let mut k = 0;
	while k < K {
		let (b, n) = utf8(data[k]);
		if k >= left || len + n > C {
			over = true;
		}
		if !over {
			want[len] = b[0];
			if n > 1 { want[len + 1] = b[1] }
			if n > 2 { want[len + 2] = b[2] }
			if n > 3 { want[len + 3] = b[3] }
			len += n;
		}
		k += 1;
	}
	holds(&s, &want, len);
	cover!(len == C, "full");
	cover!(over && left == K && len < C, "cut before a character that does not fit");
}

/// `s` is exactly `want`.
fn exactly<const L: usize>(s: &str, want: &[u8; L]) {
	check!(s.len() == L, "the length is wrong");
	let mut i = 0;
	while i < L {
		check!(s.as_bytes()[i] == want[i], "another text is held");
		i += 1;
	}
}

/// Any text of `L` octets.
fn long<const L: usize>() -> [u8; L] {
	let b: [u8; L] = any();
	assume(utf8_valid_up_to(&b) == L);
	cover!(b[L - 1] > 0x7F && b[0] > 0x7F, "not ASCII");
	b
}

/// Constructions from texts of `L` octets.
fn long_new<const L: usize, const C: usize>() {
	let b = long::<L>();
	let t = unsafe { std::str::from_utf8_unchecked(&b) };
	macro_rules! one {
		($r:expr) => {{
			let Ok(s) = $r else { panic!("a text within the limit is refused") };
			sized::<C>(&s, L);
			exactly(&s, &b);
		}};
	}
	one!(SizedStr::<C>::new(t));
	one!(t.parse::<SizedStr<C>>());
	one!(SizedStr::<C>::try_from(t));
	one!(SizedStr::<C>::try_from(unsafe { String::from_utf8_unchecked(b.to_vec()) }));
	one!(SizedStr::<L>::new(t).map(|s| unsafe { SizedStr::<C>::from_utf8_unchecked(s.as_bytes()) }));
}

/// Views of and conversions from texts of `L` octets.
fn long_views<const L: usize, const C: usize>() {
	let b = long::<L>();
	let s = unsafe { SizedStr::<C>::from_utf8_unchecked(&b) };
	sized(&s, L);
	exactly(&s, &b);
	let c = s.clone();
	exactly(c.as_str(), &b);
	let (buf, l) = s.into_raw_parts();
	check!(l == L, "raw parts have another length");
	let s = unsafe { SizedStr::from_raw_parts(buf, l) };
	exactly(&s[..], &b);
	let o = s.clone().into_bytes();
	check!(o.len() == L && o.capacity() == C, "octets have another length");
	let mut i = 0;
	while i < L { check!(o[i] == b[i], "octets hold another text"); i += 1; }
	let t = s.clone().into_boxed_str();
	exactly(&t, &b);
	drop(t);
	let t = s.into_string();
	exactly(&t, &b);
	drop(t);
	exactly(c.as_ref(), &b);
}

/// Characters of texts of `L` octets, all ASCII but the last character.
fn long_chars<const L: usize, const C: usize>() {
	let mut b: [u8; L] = any();
	let last: char = any();
	let (o, n) = utf8(last);
	let mut i = 0;
	while i < L { b[i] &= 0x7F; i += 1; }
	let mut k = 0;
	let it = std::iter::from_fn(|| {
		k += 1;
		if k <= L { Some(b[k - 1] as char) } else if k == L + 1 { Some(last) } else { None }
	});
	let s: SizedStr<C> = it.collect();
	let fits = L + n <= C;
	sized(&s, if fits { L + n } else { L });
	exactly(&s[..L], &b);
	let mut i = 0;
	while i < 4 {
		check!(!fits || i >= n || s.as_bytes()[L + i] == o[i], "another text is held");
		i += 1;
	}
	cover!(fits && n == 3, "fits");
	cover!(!fits, "does not fit");
}

harnesses! {
	/// 0 octets
	fn utf8_0(9, 9) {
		from_utf8::<0, N>();
		from_utf8::<0, 0>();
	}

	/// any 1 octet
	fn utf8_1(9, 9) { from_utf8::<1, N>(); from_utf8::<1, 1>(); }

	/// any 2 octets
	fn utf8_2(9, 9) { from_utf8::<2, N>(); from_utf8::<2, 2>(); }

	/// any 3 octets
	fn utf8_3(9, 9) { from_utf8::<3, N>(); }

	/// any 3 octets into a limit of 3
	fn utf8_3_full(9, 9) { from_utf8::<3, 3>(); }

	/// any 4 octets into a limit of 4
	fn utf8_4(9, 9) { from_utf8::<4, 4>(); }

	/// any 4 octets into a limit of 7
	fn utf8_4_spare(9, 9) { from_utf8::<4, 7>(); }

	/// any 5 octets
	fn utf8_5(9, 9) { if cfg!(feature = "thorough") { from_utf8::<5, 6>() } else { from_utf8::<5, 4>() } }

	/// any 6 octets
	fn utf8_6(9, 9) { if cfg!(feature = "thorough") { from_utf8::<6, 6>() } else { from_utf8::<6, 4>() } }

	/// new of any text of up to N + 2 octets
	fn new(10, 10) {
		let (b, len) = text::<{ N + 2 }>();
		let t = unsafe { std::str::from_utf8_unchecked(&b[..len]) };
		limited(SizedStr::<N>::new(t), &b, len);
		cover!(len == N + 1, "one too many");
	}

	/// from_str, parse of any text of up to N + 2 octets
	fn parse(10, 10) {
		let (b, len) = text::<{ N + 2 }>();
		let t = unsafe { std::str::from_utf8_unchecked(&b[..len]) };
		limited(if any() { SizedStr::<N>::from_str(t) } else { t.parse::<SizedStr<N>>() }, &b, len);
		cover!(len == N + 1, "one too many");
	}

	/// try_from of any text of up to N + 2 octets
	fn try_from(10, 10) {
		let (b, len) = text::<{ N + 2 }>();
		let t = unsafe { std::str::from_utf8_unchecked(&b[..len]) };
		limited(SizedStr::<N>::try_from(t), &b, len);
		cover!(len == N + 1, "one too many");
	}

	/// try_from of any owned text of up to N + 2 octets
	fn try_from_string(10, 10) {
		let (b, len) = text::<{ N + 2 }>();
		let t = unsafe { String::from_utf8_unchecked(b[..len].to_vec()) };
		limited(SizedStr::<N>::try_from(t), &b, len);
		cover!(len == N + 1, "one too many");
	}

	/// limits of 0 and 1
	fn new_small(10, 10) {
		let (b, len) = text::<3>();
		let t = unsafe { std::str::from_utf8_unchecked(&b[..len]) };
		limited(SizedStr::<0>::new(t), &b, len);
		limited(SizedStr::<1>::new(t), &b, len);
	}

	/// texts of any length up to 70000
	fn new_big(10, 10) {
		static BIG: [u8; 70000] = [b'a'; 70000];
		let len = up_to(70000);
		assume(len > N);
		let t = unsafe { std::str::from_utf8_unchecked(&BIG[..len]) };
		let r = match any::<u8>() { 0 => SizedStr::<N>::new(t), 1 => t.parse(), _ => SizedStr::try_from(t) };
		match r {
			Err(StringError::SmallBuffer(LengthError { capacity, len: l })) => check!(capacity == N && l == len, "the error is wrong"),
			_ => check!(false, "a text beyond the limit is accepted"),
		}
		cover!(len == 65536 + N, "far beyond");
	}

	/// octets far beyond the limit
	fn utf8_big(10, 10) {
		static BIG: [u8; 65537 + N] = [b'a'; 65537 + N];
		macro_rules! one {
			($($n:expr),*) => { $(match SizedStr::<N>::from_utf8(&BIG[..$n]) {
				Err(StringError::SmallBuffer(LengthError { capacity, len })) => check!(capacity == N && len == $n, "the error is wrong"),
				_ => check!(false, "octets beyond the limit are accepted"),
			})* };
		}
		one!(257, 256 + N, 65536, 65536 + N);
	}

	/// any character
	fn one_char(8, 8) {
		let c: char = any();
		let (b, n) = utf8(c);
		limited(SizedStr::<4>::try_from(c), &b, n);
		limited(SizedStr::<3>::try_from(c), &b, n);
		limited(SizedStr::<1>::try_from(c), &b, n);
		check!(!is_ok(&SizedStr::<0>::try_from(c)), "a character beyond the limit is accepted");
		cover!(n == 4, "astral");
	}

	/// collecting up to 3 characters, with a limit of 5
	fn collect_3(5, 5) { collect::<5, 3>(); }

	/// collecting up to 4 characters, with a limit of 4
	fn collect_4(6, 6) { collect::<4, 4>(); }

	/// collecting up to 2 characters, with a limit of 3
	fn collect_2(5, 5) { collect::<3, 2>(); }

	/// collecting with no limit at all
	fn collect_0(5, 5) {
		let s: SizedStr<0> = Chars::<2> { data: any(), left: up_to(2), at: 0 }.collect();
		sized(&s, 0);
	}

	/// the default string is empty
	fn default(4, 4) {
		let s = SizedStr::<N>::default();
		sized(&s, 0);
		check!(s == "", "the default string is not empty");
		sized(&SizedStr::<0>::default(), 0);
	}

	/// all views show the same text
	fn views(8, 8) {
		let (mut s, raw, len) = string();
		let p = s.as_ptr();
		let at = up_to(N - 1);
		macro_rules! same {
			($v:expr) => {
				let v: &[u8] = $v;
				check!(v.len() == len && v.as_ptr() == p, "a view shows another text");
				check!(at >= len || v[at] == raw[at], "a view shows another text");
			};
		}
		same!(s.as_bytes());
		same!(s.as_str().as_bytes());
		same!((&*s).as_bytes());
		same!(AsRef::<str>::as_ref(&s).as_bytes());
		same!(AsRef::<[u8]>::as_ref(&s));
		same!(AsRef::<OsStr>::as_ref(&s).as_encoded_bytes());
		same!(AsRef::<Path>::as_ref(&s).as_os_str().as_encoded_bytes());
		same!(Borrow::<str>::borrow(&s).as_bytes());
		same!(s[..].as_bytes());
		same!(s.as_mut_str().as_bytes());
		same!(AsMut::<str>::as_mut(&mut s).as_bytes());
		same!(BorrowMut::<str>::borrow_mut(&mut s).as_bytes());
		same!((&mut *s).as_bytes());
		same!((&mut s[..]).as_bytes());
		check!(s.as_mut_ptr().cast_const() == p, "a view shows another text");
		check!(at >= len || unsafe { *p.add(at) } == raw[at], "a view shows another text");
		cover!(len == N, "full");
		cover!(len == 0, "empty");
	}

	/// indexing by ranges of whole characters
	fn index(8, 8) {
		let (mut s, raw, len) = string();
		let (a, b) = (up_to(N), up_to(N));
		assume(a <= b && b <= len);
		assume(a == len || raw[a] & 0xC0 != 0x80);
		assume(b == len || raw[b] & 0xC0 != 0x80);
		let at = up_to(N - 1);
		let part = s[a..b].as_bytes();
		check!(part.len() == b - a, "an indexed part has another length");
		check!(at >= part.len() || part[at] == raw[a + at], "an indexed part is elsewhere");
		check!(s[a..].len() == len - a && s[..b].len() == b, "an indexed part has another length");
		check!(s[a..b].len() == b - a, "an indexed part has another length");
		check!((&mut s[a..b]).len() == b - a, "an indexed part has another length");
		cover!(a > 0 && b < len && b - a == 2 && raw[a] > 0x7F, "a character inside");
	}

	/// indexing beyond the text, or within a character, panics
	fn index_pn(8, 8) {
		let (s, raw, len) = string();
		let (a, b): (usize, usize) = (any(), any());
		assume(a > b || b > len || (a < len && raw[a] & 0xC0 == 0x80) || (b < len && raw[b] & 0xC0 == 0x80));
		cover!(a == 0 && b < len && b > 0, "within a character");
		cover!(a == 0 && b == len + 1 && b < N, "beyond the text, within the limit");
		must_panic!(|| { let _ = &s[a..b]; }, "a part that is no text is shown");
	}

	/// writes through mutable views are seen by all others
	fn mutable(8, 8) {
		let (mut s, raw, len) = string();
		match any::<u8>() {
			0 => s.as_mut_str().make_ascii_uppercase(),
			1 => AsMut::<str>::as_mut(&mut s).make_ascii_uppercase(),
			2 => BorrowMut::<str>::borrow_mut(&mut s).make_ascii_uppercase(),
			3 => s.make_ascii_uppercase(),
			_ => s[..].make_ascii_uppercase(),
		}
		let mut want = raw;
		let mut k = 0;
		while k < N {
			if k < len && want[k] >= b'a' && want[k] <= b'z' { want[k] -= 32 }
			k += 1;
		}
		holds(&s, &want, len);
		cover!(len == N && raw[N - 1] == b'z' && raw[0] > 0x7F, "the last octet");
	}

	/// characters and their indices
	fn chars(6, 8) {
		let (s, raw, len) = string();
		let (mut c, mut ci) = (s.chars(), s.char_indices());
		check!(c.as_str().as_ptr() == s.as_ptr() && c.as_str().len() == len, "characters of another text");
		let mut at = 0;
		let mut i = 0;
		while i <= N {
			let (a, b) = (c.next(), ci.next());
			if at < len {
				let Some(a) = a else { panic!("a character is missing") };
				check!(b == Some((at, a)), "a character is at another index");
				let (o, n) = utf8(a);
				check!(at + n <= len, "another character is shown");
				let k = up_to(3);
				check!(k >= n || o[k] == raw[at + k], "another character is shown");
				at += n;
			} else {
				check!(a.is_none() && b.is_none(), "a character too many");
			}
			i += 1;
		}
		check!(at == len, "a character is missing");
		cover!(len == N && raw[0] >= 0xE0, "wide");
	}

	/// owned strings hold the same text
	fn owned(8, 8) {
		let (s, raw, len) = string();
		let at = up_to(N - 1);
		let t: String = if any() { s.into_string() } else { s.into() };
		check!(t.len() == len, "a string has another length");
		check!(at >= len || t.as_bytes()[at] == raw[at], "a string holds another text");
		drop(t);
		cover!(len == N, "full");
		cover!(len == 0, "empty");
	}

	/// boxed strings hold the same text
	fn boxed(8, 8) {
		let (s, raw, len) = string();
		let at = up_to(N - 1);
		let t: Box<str> = if any() { s.into_boxed_str() } else { s.into() };
		check!(t.len() == len, "a string has another length");
		check!(at >= len || t.as_bytes()[at] == raw[at], "a string holds another text");
		drop(t);
		cover!(len == N, "full");
		cover!(len == 0, "empty");
	}

	/// raw parts and octets restore the text
	fn parts(8, 8) {
		let (s, raw, len) = string();
		if any() {
			let (buf, l) = s.into_raw_parts();
			check!(l == len, "raw parts have another length");
			let at = up_to(N - 1);
			check!(at >= len || buf[at] == raw[at], "raw parts hold another text");
			holds(&unsafe { SizedStr::from_raw_parts(buf, l) }, &raw, len);
		} else {
			let b = s.into_bytes();
			check!(b.len() == len && b.capacity() == N, "octets have another length");
			let at = up_to(N - 1);
			check!(at >= len || b[at] == raw[at], "octets hold another text");
		}
		cover!(len == N, "full");
	}

	/// raw parts of strings whose octets beyond the length were never written
	fn parts_fresh(8, 8) {
		let (buf, l) = SizedStr::<N>::default().into_raw_parts();
		check!(l == 0, "raw parts have another length");
		holds(&unsafe { SizedStr::from_raw_parts(buf, l) }, &buf, 0);
		let at = up_to(N - 1);
		let octet = buf[at];
		cover!(octet == 0, "an octet beyond the length");

		let raw = [1u8, 0, b'x', b'\n'];
		let r = dec::<SizedStr<N>>(&raw[..3]).0;
		let Ok(s) = r else { panic!("a valid text is refused") };
		let (buf, l) = s.clone().into_raw_parts();
		check!(l == 1 && buf[0] == b'x', "raw parts hold another text");
		let octet = buf[at];
		cover!(octet == 0, "an octet beyond the length");
	}

	/// unchecked construction holds exactly the octets
	fn unchecked(8, 8) {
		let (b, len) = text::<N>();
		let s = unsafe { SizedStr::<N>::from_utf8_unchecked(&b[..len]) };
		holds(&s, &b, len);
		cover!(len == N, "full");
	}

	/// a clone holds the same text and is independent
	fn clone(6, 8) {
		let (mut s, raw, len) = string();
		let c = s.clone();
		holds(&c, &raw, len);
		s.make_ascii_uppercase();
		holds(&c, &raw, len);
		cover!(len == N && raw[0] == b'q', "full");
	}

	/// displaying writes exactly the text
	fn display(8, 8) {
		let (s, raw, len) = string();
		let mut sink = Sink { buf: [0; N], len: 0 };
		check!(std::fmt::Write::write_fmt(&mut sink, format_args!("{s}")).is_ok(), "displaying fails");
		check!(sink.len == len, "another text is displayed");
		let at = up_to(N - 1);
		check!(at >= len || sink.buf[at] == raw[at], "another text is displayed");
		cover!(len == N, "full");
	}

	/// any 9 octets
	fn utf8_9(25, 25) { from_utf8::<9, 9>(); from_utf8::<9, 20>(); }

	/// any 18 octets
	fn utf8_18(34, 34) { from_utf8::<18, 18>(); }

	/// any 34 octets
	fn utf8_34(50, 50) { from_utf8::<34, 40>(); }

	/// collecting 9 to 13 octets, with a limit of 12
	fn long_chars_9(26, 26) { long_chars::<9, 12>(); }

	/// collecting 30 to 34 octets, with a limit of 33
	fn long_chars_30(50, 50) { long_chars::<30, 33>(); }

	/// constructions from texts of 9 octets, with a limit of 20
	fn long_new_9(36, 36) { long_new::<9, 20>(); }

	/// constructions from texts of 17 octets, with a limit of 17
	fn long_new_17(33, 33) { long_new::<17, 17>(); }

	/// constructions from texts of 35 octets, with a limit of 40
	fn long_new_35(56, 56) { long_new::<35, 40>(); }

	/// views of and conversions from texts of 9 octets, with a limit of 20
	fn long_views_9(36, 36) { long_views::<9, 20>(); }

	/// views of and conversions from texts of 17 octets, with a limit of 17
	fn long_views_17(33, 33) { long_views::<17, 17>(); }

	/// views of and conversions from texts of 35 octets, with a limit of 40
	fn long_views_35(56, 56) { long_views::<35, 40>(); }
}

struct Sink {
	buf: [u8; N],
	len: usize,
}

impl std::fmt::Write for Sink {
	fn write_str(&mut self, s: &str) -> std::fmt::Result {
		let b = s.as_bytes();
		let mut k = 0;
		while k < N {
			if k < b.len() && self.len + k < N { self.buf[self.len + k] = b[k] }
			k += 1;
		}
		self.len += b.len();
		Ok(())
	}
}
