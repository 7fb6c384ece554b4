//! Well-formed UTF-8, from table 3-7 of the Unicode standard.

/// The number of leading octets that form well-formed sequences, i.e. the
/// index of the first octet that does not start one; `N` if all do.
#[inline(always)]
pub fn utf8_valid_up_to<const N: usize>(b: &[u8; N]) -> usize {
	// Where the current sequence starts; how many continuation octets it
	// still needs; and the range of the next one.
	let mut start = 0;
	let mut need = 0u8;
	let (mut lo, mut hi) = (0x80u8, 0xBFu8);
	let mut bad = false;

	let mut i = 0;
	while i < N {
		let c = b[i];

		if bad {
		} else if need == 0 {
			start = i;
			lo = 0x80;
			hi = 0xBF;

			if c <= 0x7F {
			} else if c >= 0xC2 && c <= 0xDF {
				need = 1;
			} else if c >= 0xE0 && c <= 0xEF {
				need = 2;
				if c == 0xE0 {
					lo = 0xA0;
				}
				if c == 0xED {
					hi = 0x9F;
				}
			} else if c >= 0xF0 && c <= 0xF4 {
				need = 3;
				if c == 0xF0 {
					lo = 0x90;
				}
				if c == 0xF4 {
					hi = 0x8F;
				}
			} else {
				bad = true;
			}
		} else if c < lo || c > hi {
			bad = true;
		} else {
			need -= 1;
			lo = 0x80;
			hi = 0xBF;
		}

		i += 1;
	}

	if bad || need != 0 {
		start
	} else {
		N
	}
}
