From f52e46692c8c0eb3a82688bd7929a0bb1de58c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 01/15] fix: reject every surrogate code point when decoding
 char

---
 oct/src/decode/decode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index 6fc748d..b192e85 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -245,7 +245,7 @@ impl Decode for char {
 		let Ok(code_point) = u32::decode(input);
 
 		match code_point {
-			code_point @ (0x0000..=0xD7FF | 0xDE00..=0x10FFFF) => {
+			code_point @ (0x0000..=0xD7FF | 0xE000..=0x10FFFF) => {
 				let this = unsafe { Self::from_u32_unchecked(code_point) };
 				Result::Ok(this)
 			},
-- 
2.43.0


From 03cb2500be3f0681a40fa19fac64122075bc2fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 02/15] fix: pass only the used part of a slot to the decoder

---
 oct/src/slot/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/slot/mod.rs b/oct/src/slot/mod.rs
index 0acf598..4c96d82 100644
--- a/oct/src/slot/mod.rs
+++ b/oct/src/slot/mod.rs
@@ -296,7 +296,7 @@ impl<T: Decode> Slot<T> {
 		// We should only pass the used part of the slot to
 		// `decode`.
 
-		let mut stream = Input::new(&self.buf);
+		let mut stream = Input::new(self.as_slice());
 
 		let value = Decode::decode(&mut stream)?;
 		Ok(value)
-- 
2.43.0


From 62aa972384e8755a513845ad830ab72548a7282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 03/15] fix: encode the length of hash maps and hash sets,
 which their decoders read

---
 oct/src/encode/encode/mod.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index 37c61e4..7f39960 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -343,13 +343,23 @@ where
 	V: Encode<Error = E>,
 	S: BuildHasher,
 {
-	type Error = E;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, E>>;
 
-	#[inline(always)]
+	#[inline]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for (key, value) in self {
-			key.encode(output)?;
-			value.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, (key, value)) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
+
+			value
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
@@ -363,12 +373,19 @@ where
 	K: Encode,
 	S: BuildHasher,
 {
-	type Error = K::Error;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, K::Error>>;
 
-	#[inline(always)]
+	#[inline]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for key in self {
-			key.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, key) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
-- 
2.43.0


From c3e3543c9a670430192e7885c62bd6c0a6dfc5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 04/15] fix: bound the encoding of Result by its members'
 encodings, not their layouts

---
 oct/src/encode/sized_encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/sized_encode/mod.rs b/oct/src/encode/sized_encode/mod.rs
index 9aef887..6c60dab 100644
--- a/oct/src/encode/sized_encode/mod.rs
+++ b/oct/src/encode/sized_encode/mod.rs
@@ -232,7 +232,7 @@ where
 {
 	const MAX_ENCODED_SIZE: usize =
 		bool::MAX_ENCODED_SIZE
-		+ if size_of::<T>() > size_of::<E>() { size_of::<T>() } else { size_of::<E>() };
+		+ if T::MAX_ENCODED_SIZE > E::MAX_ENCODED_SIZE { T::MAX_ENCODED_SIZE } else { E::MAX_ENCODED_SIZE };
 }
 
 #[cfg(feature = "std")]
-- 
2.43.0


From 0756d4d4d7e3775da1347f35d3f9fc630e2317bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 05/15] fix: do not overflow when encoding the earliest
 SystemTime

---
 oct/src/encode/encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index 7f39960..f2fd64a 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -817,7 +817,7 @@ impl Encode for SystemTime {
 				.duration_since(*self)
 				.expect("cannot compute duration until the epoch");
 
-			0x0 - duration.as_secs() as i64
+			0x0_i64.wrapping_sub(duration.as_secs() as i64)
 		};
 
 		time.encode(output)?;
-- 
2.43.0


From a1a0cca5363a919a9c99185b01defd40a978de1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 06/15] fix: decode only as many SizedSlice elements as were
 encoded

---
 oct/src/sized_slice/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index 2df99a7..f924b84 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -36,7 +36,7 @@ impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 
 		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
 
-		for (i, slot) in buf.iter_mut().enumerate() {
+		for (i, slot) in buf.iter_mut().take(len).enumerate() {
 			let v = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-- 
2.43.0


From 7ffb2a8c17f7da20b96096683f49ba2d6e8e0068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 07/15] fix: include the length prefix in the size bound of
 SizedSlice

---
 oct/src/sized_slice/code.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index f924b84..2f4d504 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -59,5 +59,7 @@ impl<T: Encode, const N: usize> Encode for SizedSlice<T, N> {
 }
 
 impl<T: SizedEncode, const N: usize> SizedEncode for SizedSlice<T, N> {
-	const MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE * N;
+	const MAX_ENCODED_SIZE: usize =
+		usize::MAX_ENCODED_SIZE
+		+ T::MAX_ENCODED_SIZE * N;
 }
-- 
2.43.0


From b4c3b40528185843a61fcd184ba60436ebc28baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 08/15] fix: report the number of remaining elements from
 SizedIter::size_hint

---
 oct/src/sized_iter/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oct/src/sized_iter/mod.rs b/oct/src/sized_iter/mod.rs
index 493e37c..a724ef8 100644
--- a/oct/src/sized_iter/mod.rs
+++ b/oct/src/sized_iter/mod.rs
@@ -176,8 +176,6 @@ impl<T, const N: usize> Iterator for SizedIter<T, N> {
 
 	#[inline(always)]
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let rem = unsafe { self.len.unchecked_sub(self.pos) };
-
-		(rem, Some(rem))
+		(self.len, Some(self.len))
 	}
 }
-- 
2.43.0


From 0bac6fc83950bc92afb28fee70afc4adbc8da6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 09/15] fix: do not drop the elements moved into a SizedSlice
 from an array

---
 oct/src/sized_slice/conv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index dad9071..3ccf135 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -23,7 +23,7 @@ use crate::SizedSlice;
 use crate::error::LengthError;
 
 use core::borrow::{Borrow, BorrowMut};
-use core::mem::MaybeUninit;
+use core::mem::{ManuallyDrop, MaybeUninit};
 use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
@@ -194,6 +194,10 @@ impl<T, const N: usize> DerefMut for SizedSlice<T, N> {
 impl<T, const N: usize> From<[T; N]> for SizedSlice<T, N> {
 	#[inline(always)]
 	fn from(value: [T; N]) -> Self {
+		// The elements are moved into the new buffer and
+		// must not be dropped along with `value`.
+		let value = ManuallyDrop::new(value);
+
 		unsafe {
 			let buf = value.as_ptr().cast::<[MaybeUninit<T>; N]>().read();
 
-- 
2.43.0


From c56bd5a83ad23bfb072a5b30a627e7d6e12b6079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 10/15] fix: check bounds in SizedSlice::copy_from_slice

---
 oct/src/sized_slice/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index b0884b9..256a132 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -77,11 +77,17 @@ pub struct SizedSlice<T, const N: usize> {
 
 impl<T, const N: usize> SizedSlice<T, N> {
 	/// Copies elements from a slice.
+	///
+	/// # Panics
+	///
+	/// If `self` cannot contain the entirety of `data` then this method will panic.
 	#[inline]
 	pub const fn copy_from_slice(&mut self, data: &[T])
 	where
 		T: Copy,
 	{
+		assert!(data.len() <= N, "sized slice cannot contain source slice");
+
 		unsafe {
 			let src  = data.as_ptr();
 			let dst   = self.buf.as_mut_ptr().cast();
-- 
2.43.0


From bbef10b347bbcc6f30528e8dedf0fb8c40516af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 11/15] fix: hash SizedSlice identically to the slice it
 borrows as

---
 oct/src/sized_slice/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index 256a132..5f652b7 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -260,9 +260,7 @@ impl<T, const N: usize> Default for SizedSlice<T, N> {
 impl<T: Hash, const N: usize> Hash for SizedSlice<T, N> {
 	#[inline(always)]
 	fn hash<H: Hasher>(&self, state: &mut H) {
-		for v in self {
-			v.hash(state);
-		}
+		self.as_slice().hash(state);
 	}
 }
 
-- 
2.43.0


From 7556e4ddfe08bc3c822ac66a43b0f16be7e6f492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 12/15] fix: do not request null-sized allocations in
 SizedSlice::into_boxed_slice

---
 oct/src/sized_slice/conv.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index 3ccf135..10b0822 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -28,6 +28,9 @@ use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
 
+#[cfg(feature = "alloc")]
+use core::ptr::NonNull;
+
 #[cfg(feature = "alloc")]
 use alloc::alloc::{alloc, Layout};
 
@@ -121,7 +124,14 @@ impl<T, const N: usize> SizedSlice<T, N> {
 
 		unsafe {
 			let layout = Layout::array::<T>(len).unwrap();
-			let ptr = alloc(layout).cast::<T>();
+
+			// SAFETY: `alloc` may not be called with a null-
+			// sized layout.
+			let ptr = if layout.size() == 0x0 {
+				NonNull::<T>::dangling().as_ptr()
+			} else {
+				alloc(layout).cast::<T>()
+			};
 
 			assert!(!ptr.is_null(), "allocation failed");
 
-- 
2.43.0


From af721cb30b404d8943df74611cd5a1fe5c3be1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 13/15] fix: initialise every octet returned by
 SizedStr::into_raw_parts

---
 oct/src/sized_str/conv.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oct/src/sized_str/conv.rs b/oct/src/sized_str/conv.rs
index 9ab9ff7..7d241c1 100644
--- a/oct/src/sized_str/conv.rs
+++ b/oct/src/sized_str/conv.rs
@@ -23,7 +23,7 @@ use crate::{SizedSlice, SizedStr};
 use crate::error::{LengthError, StringError, Utf8Error};
 
 use core::borrow::{Borrow, BorrowMut};
-use core::mem::{ManuallyDrop, MaybeUninit};
+use core::mem::MaybeUninit;
 use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
@@ -185,10 +185,12 @@ impl<const N: usize> SizedStr<N> {
 	#[must_use]
 	pub const fn into_raw_parts(self) -> ([u8; N], usize) {
 		let Self(vec) = self;
-		let (buf, len) = vec.into_raw_parts();
+		let (init_buf, len) = vec.into_raw_parts();
 
-		let init_buf = ManuallyDrop::new(buf);
-		let buf = unsafe { (&raw const init_buf).cast::<[u8; N]>().read() };
+		// Only the octets up to `len` are guaranteed to be
+		// initialised.
+		let mut buf = [0x00; N];
+		unsafe { copy_nonoverlapping(init_buf.as_ptr().cast(), buf.as_mut_ptr(), len) };
 
 		(buf, len)
 	}
-- 
2.43.0


From 9803c5221cb026b8521231e10f1eafb9ef54ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 14/15] fix: zero-extend signed discriminants as documented

---
 oct/src/primitive_discriminant/mod.rs | 30 ++++++++++++++-------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/oct/src/primitive_discriminant/mod.rs b/oct/src/primitive_discriminant/mod.rs
index ff4b75c..9416a06 100644
--- a/oct/src/primitive_discriminant/mod.rs
+++ b/oct/src/primitive_discriminant/mod.rs
@@ -45,12 +45,14 @@ pub(crate) use sealed::PrimitiveDiscriminant as SealedPrimitiveDiscriminant;
 pub trait PrimitiveDiscriminant: Copy + SealedPrimitiveDiscriminant + Sized { }
 
 macro_rules! impl_primitive_discriminant {
-	($ty:ty) => {
+	($ty:ty, $unsigned:ty$(,)?) => {
 		impl ::oct::SealedPrimitiveDiscriminant for $ty {
 			#[allow(clippy::cast_lossless)]
 			#[inline(always)]
 			fn to_u128(self) -> u128 {
-				self as u128
+				// Cast through the unsigned counterpart as to not
+				// sign-extend.
+				self as $unsigned as u128
 			}
 		}
 
@@ -58,15 +60,15 @@ macro_rules! impl_primitive_discriminant {
 	};
 }
 
-impl_primitive_discriminant!(u8);
-impl_primitive_discriminant!(i8);
-impl_primitive_discriminant!(u16);
-impl_primitive_discriminant!(i16);
-impl_primitive_discriminant!(u32);
-impl_primitive_discriminant!(i32);
-impl_primitive_discriminant!(u64);
-impl_primitive_discriminant!(i64);
-impl_primitive_discriminant!(u128);
-impl_primitive_discriminant!(i128);
-impl_primitive_discriminant!(usize);
-impl_primitive_discriminant!(isize);
+impl_primitive_discriminant!(u8, u8);
+impl_primitive_discriminant!(i8, u8);
+impl_primitive_discriminant!(u16, u16);
+impl_primitive_discriminant!(i16, u16);
+impl_primitive_discriminant!(u32, u32);
+impl_primitive_discriminant!(i32, u32);
+impl_primitive_discriminant!(u64, u64);
+impl_primitive_discriminant!(i64, u64);
+impl_primitive_discriminant!(u128, u128);
+impl_primitive_discriminant!(i128, u128);
+impl_primitive_discriminant!(usize, usize);
+impl_primitive_discriminant!(isize, usize);
-- 
2.43.0


From 3de1eb2e853946f3a432bc0fb25940fced3899c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 15/15] fix: keep SizedIter::nth within bounds and relative to
 the current position

---
 oct/src/sized_iter/mod.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/oct/src/sized_iter/mod.rs b/oct/src/sized_iter/mod.rs
index a724ef8..df7a770 100644
--- a/oct/src/sized_iter/mod.rs
+++ b/oct/src/sized_iter/mod.rs
@@ -146,30 +146,32 @@ impl<T, const N: usize> Iterator for SizedIter<T, N> {
 
 	#[inline]
 	fn nth(&mut self, index: usize) -> Option<Self::Item> {
-		if index > self.len { return None };
+		let count = index.min(self.len);
 
 		let skipped = {
 			let start = self.pos;
-			let stop  = start + index - 0x1;
+			let stop  = start + count;
 
 			unsafe { self.buf.get_unchecked_mut(start..stop) }
 		};
 
+		self.len -= count;
+		self.pos += count;
+
 		// Drop each skipped element.
 
 		for item in skipped {
 			unsafe { item.assume_init_drop() };
 		}
 
-		// Read the final element.
+		if self.len == 0x0 { return None };
 
-		// SAFETY: `index` has been tested to be within
-		// bounds, and the element at that position is also
-		// guaranteed to still be alive.
-		let item = unsafe { self.buf.get_unchecked(index).assume_init_read() };
+		// Read the final element.
 
-		self.len -= index;
-		self.pos += index;
+		// SAFETY: At least one element remains, and the
+		// element at the current position is also guaran-
+		// teed to still be alive.
+		let item = unsafe { self.buf.get_unchecked(self.pos).assume_init_read() };
 
 		Some(item)
 	}
-- 
2.43.0

