From 74c84b1ceb311dea0c32d5bae584e54aa4dd6cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 01/18] fix: encode the length of hash maps and hash sets

Decode reads a length prefix that Encode never wrote, so no encoded map or
set could be decoded again.
---
 oct/src/encode/encode/mod.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index 37c61e4..cac1c1e 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -343,13 +343,24 @@ where
 	V: Encode<Error = E>,
 	S: BuildHasher,
 {
-	type Error = E;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, E>>;
 
+	/// Encodes each key-value pair sequentially with an extra length specifier (of type [`usize`]) prepended first.
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for (key, value) in self {
-			key.encode(output)?;
-			value.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, (key, value)) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
+
+			value
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
@@ -363,12 +374,20 @@ where
 	K: Encode,
 	S: BuildHasher,
 {
-	type Error = K::Error;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, K::Error>>;
 
+	/// Encodes each key sequentially with an extra length specifier (of type [`usize`]) prepended first.
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for key in self {
-			key.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, key) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
-- 
2.43.0


From a8f442b04b559aad31276daef8cca72816584a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 02/18] fix: reject the surrogates U+DE00 to U+DFFF when
 decoding char

They were passed to char::from_u32_unchecked, which is undefined behaviour.
---
 oct/src/decode/decode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index 6fc748d..b192e85 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -245,7 +245,7 @@ impl Decode for char {
 		let Ok(code_point) = u32::decode(input);
 
 		match code_point {
-			code_point @ (0x0000..=0xD7FF | 0xDE00..=0x10FFFF) => {
+			code_point @ (0x0000..=0xD7FF | 0xE000..=0x10FFFF) => {
 				let this = unsafe { Self::from_u32_unchecked(code_point) };
 				Result::Ok(this)
 			},
-- 
2.43.0


From 9cbd154f4752749acf38bcdd585db8cd7b1bcd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 03/18] fix: decode only the recorded elements of a sized slice

The decoder always read N elements, whatever length had been encoded.
---
 oct/src/sized_slice/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index 2df99a7..f924b84 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -36,7 +36,7 @@ impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 
 		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
 
-		for (i, slot) in buf.iter_mut().enumerate() {
+		for (i, slot) in buf.iter_mut().take(len).enumerate() {
 			let v = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-- 
2.43.0


From eba0a474ca1c9ff63142f81c06799723217315a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 04/18] fix: count the length prefix in SizedSlice's
 MAX_ENCODED_SIZE

---
 oct/src/sized_slice/code.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index f924b84..2f4d504 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -59,5 +59,7 @@ impl<T: Encode, const N: usize> Encode for SizedSlice<T, N> {
 }
 
 impl<T: SizedEncode, const N: usize> SizedEncode for SizedSlice<T, N> {
-	const MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE * N;
+	const MAX_ENCODED_SIZE: usize =
+		usize::MAX_ENCODED_SIZE
+		+ T::MAX_ENCODED_SIZE * N;
 }
-- 
2.43.0


From f06270cb823860735b6a7b2f0dab6b9414661077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 05/18] fix: derive Result's MAX_ENCODED_SIZE from those of its
 variants

size_of bears no relation to the size of an encoding.
---
 oct/src/encode/sized_encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/sized_encode/mod.rs b/oct/src/encode/sized_encode/mod.rs
index 9aef887..6c60dab 100644
--- a/oct/src/encode/sized_encode/mod.rs
+++ b/oct/src/encode/sized_encode/mod.rs
@@ -232,7 +232,7 @@ where
 {
 	const MAX_ENCODED_SIZE: usize =
 		bool::MAX_ENCODED_SIZE
-		+ if size_of::<T>() > size_of::<E>() { size_of::<T>() } else { size_of::<E>() };
+		+ if T::MAX_ENCODED_SIZE > E::MAX_ENCODED_SIZE { T::MAX_ENCODED_SIZE } else { E::MAX_ENCODED_SIZE };
 }
 
 #[cfg(feature = "std")]
-- 
2.43.0


From 82d821ccd7c1691df8ae231ced8a76626f260ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 06/18] fix: pass only the used part of a slot to decode in
 Slot::read

---
 oct/src/slot/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/slot/mod.rs b/oct/src/slot/mod.rs
index 0acf598..4c96d82 100644
--- a/oct/src/slot/mod.rs
+++ b/oct/src/slot/mod.rs
@@ -296,7 +296,7 @@ impl<T: Decode> Slot<T> {
 		// We should only pass the used part of the slot to
 		// `decode`.
 
-		let mut stream = Input::new(&self.buf);
+		let mut stream = Input::new(self.as_slice());
 
 		let value = Decode::decode(&mut stream)?;
 		Ok(value)
-- 
2.43.0


From 3d9aaa9608cc03a0f056df8fe23ada2d65037edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 07/18] fix: encode the time point 2^63 seconds before the
 epoch

Negating its timestamp as an i64 overflowed.
---
 oct/src/encode/encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index cac1c1e..b7fe86e 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -819,7 +819,7 @@ impl Encode for SystemTime {
 				.duration_since(*self)
 				.expect("cannot compute duration until the epoch");
 
-			0x0 - duration.as_secs() as i64
+			(duration.as_secs() as i64).wrapping_neg()
 		};
 
 		time.encode(output)?;
-- 
2.43.0


From 4f27e907dd48004c19b45a97731b129043678094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 08/18] fix: report the remaining length in
 SizedIter::size_hint

len is already the number of remaining elements, so subtracting pos gave a
wrong hint and eventually underflowed.
---
 oct/src/sized_iter/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oct/src/sized_iter/mod.rs b/oct/src/sized_iter/mod.rs
index 493e37c..a724ef8 100644
--- a/oct/src/sized_iter/mod.rs
+++ b/oct/src/sized_iter/mod.rs
@@ -176,8 +176,6 @@ impl<T, const N: usize> Iterator for SizedIter<T, N> {
 
 	#[inline(always)]
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let rem = unsafe { self.len.unchecked_sub(self.pos) };
-
-		(rem, Some(rem))
+		(self.len, Some(self.len))
 	}
 }
-- 
2.43.0


From 9d2c95d57b3aa8f1717f9951a001603e75a6e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 09/18] fix: do not drop the elements of an array converted to
 a sized slice

The elements were copied out of the array, which was then dropped as well.
---
 oct/src/sized_slice/conv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index dad9071..c864787 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -23,7 +23,7 @@ use crate::SizedSlice;
 use crate::error::LengthError;
 
 use core::borrow::{Borrow, BorrowMut};
-use core::mem::MaybeUninit;
+use core::mem::{ManuallyDrop, MaybeUninit};
 use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
@@ -194,6 +194,10 @@ impl<T, const N: usize> DerefMut for SizedSlice<T, N> {
 impl<T, const N: usize> From<[T; N]> for SizedSlice<T, N> {
 	#[inline(always)]
 	fn from(value: [T; N]) -> Self {
+		// The elements are moved out of `value`, whose
+		// own destructor may therefore not be run.
+		let value = ManuallyDrop::new(value);
+
 		unsafe {
 			let buf = value.as_ptr().cast::<[MaybeUninit<T>; N]>().read();
 
-- 
2.43.0


From 4401bd7de5712506c8e57f56e2d1f61a6c15bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 10/18] fix: check bounds in SizedSlice::copy_from_slice

A source longer than N was written past the end of the buffer.
---
 oct/src/sized_slice/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index b0884b9..e1d8a1c 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -77,11 +77,17 @@ pub struct SizedSlice<T, const N: usize> {
 
 impl<T, const N: usize> SizedSlice<T, N> {
 	/// Copies elements from a slice.
+	///
+	/// # Panics
+	///
+	/// If `self` cannot contain the entirety of `data` then this method will panic.
 	#[inline]
 	pub const fn copy_from_slice(&mut self, data: &[T])
 	where
 		T: Copy,
 	{
+		assert!(data.len() <= N, "vector cannot contain source slice");
+
 		unsafe {
 			let src  = data.as_ptr();
 			let dst   = self.buf.as_mut_ptr().cast();
-- 
2.43.0


From d3749142171a203894cf638b078283747797d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 11/18] fix: do not allocate zero bytes in
 SizedSlice::into_boxed_slice

Calling the allocator with a zero-sized layout is undefined behaviour, and
the box would never have freed what it returned.
---
 oct/src/sized_slice/conv.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index c864787..4bdcf4a 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -25,7 +25,7 @@ use crate::error::LengthError;
 use core::borrow::{Borrow, BorrowMut};
 use core::mem::{ManuallyDrop, MaybeUninit};
 use core::ops::{Deref, DerefMut};
-use core::ptr::copy_nonoverlapping;
+use core::ptr::{copy_nonoverlapping, NonNull};
 use core::slice;
 
 #[cfg(feature = "alloc")]
@@ -121,7 +121,13 @@ impl<T, const N: usize> SizedSlice<T, N> {
 
 		unsafe {
 			let layout = Layout::array::<T>(len).unwrap();
-			let ptr = alloc(layout).cast::<T>();
+
+			// The allocator may not be asked for zero bytes.
+			let ptr = if layout.size() == 0x0 {
+				NonNull::dangling().as_ptr()
+			} else {
+				alloc(layout).cast::<T>()
+			};
 
 			assert!(!ptr.is_null(), "allocation failed");
 
-- 
2.43.0


From 1b25c5218e9a4d8be56520e105c34ef3e2395a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 12/18] fix: hash sized slices as the slices they borrow as

Borrow requires equal hashes; without the length prefix, lookups by slice in
a map keyed by SizedSlice failed.
---
 oct/src/sized_slice/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index e1d8a1c..76b8858 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -260,9 +260,8 @@ impl<T, const N: usize> Default for SizedSlice<T, N> {
 impl<T: Hash, const N: usize> Hash for SizedSlice<T, N> {
 	#[inline(always)]
 	fn hash<H: Hasher>(&self, state: &mut H) {
-		for v in self {
-			v.hash(state);
-		}
+		// Must hash as `[T]` does due to `Borrow<[T]>`.
+		self.as_slice().hash(state);
 	}
 }
 
-- 
2.43.0


From 70e6a5dbabd59d4fafbaa52ecc5d18c528ea5a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 13/18] fix: drop the elements of sized slices

SizedSlice stored its elements in MaybeUninit without ever dropping them.
---
 oct/src/sized_slice/conv.rs |  8 ++++++--
 oct/src/sized_slice/iter.rs |  2 +-
 oct/src/sized_slice/mod.rs  | 11 ++++++++++-
 oct/src/sized_str/conv.rs   | 10 ++++++----
 4 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index 4bdcf4a..0a08f81 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -106,8 +106,12 @@ impl<T, const N: usize> SizedSlice<T, N> {
 	#[inline(always)]
 	#[must_use]
 	pub const fn into_raw_parts(self) -> ([MaybeUninit<T>; N], usize) {
-		let Self { buf, len } = self;
-		(buf, len)
+		// The elements are moved out of `self`, whose own
+		// destructor may therefore not be run.
+		let this = ManuallyDrop::new(self);
+		let this = (&raw const this).cast::<Self>();
+
+		unsafe { ((&raw const (*this).buf).read(), (*this).len) }
 	}
 
 	/// Converts the vector into a boxed slice.
diff --git a/oct/src/sized_slice/iter.rs b/oct/src/sized_slice/iter.rs
index bfadad0..82e1fca 100644
--- a/oct/src/sized_slice/iter.rs
+++ b/oct/src/sized_slice/iter.rs
@@ -50,7 +50,7 @@ impl<T, const N: usize> IntoIterator for SizedSlice<T, N> {
 
 	#[inline(always)]
 	fn into_iter(self) -> Self::IntoIter {
-		let Self { buf, len } = self;
+		let (buf, len) = self.into_raw_parts();
 
 		unsafe { SizedIter::new(buf, len) }
 	}
diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index 76b8858..972504a 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -28,7 +28,7 @@ use core::fmt::{self, Debug, Formatter};
 use core::hash::{Hash, Hasher};
 use core::mem::MaybeUninit;
 use core::ops::{Index, IndexMut};
-use core::ptr::{copy_nonoverlapping, null, null_mut};
+use core::ptr::{copy_nonoverlapping, drop_in_place, null, null_mut};
 use core::slice::SliceIndex;
 
 // Encode/decode facilities:
@@ -257,6 +257,15 @@ impl<T, const N: usize> Default for SizedSlice<T, N> {
 	}
 }
 
+impl<T, const N: usize> Drop for SizedSlice<T, N> {
+	#[inline]
+	fn drop(&mut self) {
+		// SAFETY: The first `len` elements are always
+		// initialised and are not used hereafter.
+		unsafe { drop_in_place(self.as_mut_slice()) }
+	}
+}
+
 impl<T: Hash, const N: usize> Hash for SizedSlice<T, N> {
 	#[inline(always)]
 	fn hash<H: Hasher>(&self, state: &mut H) {
diff --git a/oct/src/sized_str/conv.rs b/oct/src/sized_str/conv.rs
index 9ab9ff7..78ca737 100644
--- a/oct/src/sized_str/conv.rs
+++ b/oct/src/sized_str/conv.rs
@@ -184,8 +184,7 @@ impl<const N: usize> SizedStr<N> {
 	#[inline(always)]
 	#[must_use]
 	pub const fn into_raw_parts(self) -> ([u8; N], usize) {
-		let Self(vec) = self;
-		let (buf, len) = vec.into_raw_parts();
+		let (buf, len) = self.into_bytes().into_raw_parts();
 
 		let init_buf = ManuallyDrop::new(buf);
 		let buf = unsafe { (&raw const init_buf).cast::<[u8; N]>().read() };
@@ -197,8 +196,11 @@ impl<const N: usize> SizedStr<N> {
 	#[inline(always)]
 	#[must_use]
 	pub const fn into_bytes(self) -> SizedSlice<u8, N> {
-		let Self(v) = self;
-		v
+		let this = ManuallyDrop::new(self);
+
+		// SAFETY: The vector is moved out of `self`, whose
+		// own destructor isn't run.
+		unsafe { (&raw const this).cast::<SizedSlice<u8, N>>().read() }
 	}
 
 	/// Converts the fixed-size string into a boxed string slice.
-- 
2.43.0


From af1dd5614800fdd14f739247f26b2414b64bf184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 14/18] fix: drop already decoded items when decoding a
 collection fails

Arrays, sized slices, and vectors leaked them.
---
 oct/src/decode/decode/mod.rs | 27 +++++++++++++++------------
 oct/src/sized_slice/code.rs  | 11 +++++------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index b192e85..b448122 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -22,6 +22,7 @@
 #[cfg(test)]
 mod tests;
 
+use crate::SizedSlice;
 use crate::decode::{DecodeBorrowed, Input};
 use crate::error::{
 	CStringDecodeError,
@@ -37,7 +38,6 @@ use core::cell::{Cell, RefCell};
 use core::convert::Infallible;
 use core::hash::Hash;
 use core::marker::{PhantomData, PhantomPinned};
-use core::mem::MaybeUninit;
 use core::net::{
 	IpAddr,
 	Ipv4Addr,
@@ -128,17 +128,26 @@ impl<T: Decode, const N: usize> Decode for [T; N] {
 
 	#[inline]
 	fn decode(input: &mut Input) -> Result<Self, Self::Error> {
-		// Initialise the array incrementally.
+		// Initialise the array incrementally. The sized
+		// slice drops whatever has been decoded if an item
+		// cannot be.
 
- 		let mut buf = [const { MaybeUninit::<T>::uninit() }; N];
+		let mut items = SizedSlice::<T, N>::default();
 
-		for (i, item) in buf.iter_mut().enumerate() {
+		for i in 0x0..N {
 			let value = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-			item.write(value);
+			// SAFETY: Each index is within bounds, and the
+			// first `i + 1` items are then initialised.
+			unsafe {
+				items.as_mut_ptr().add(i).write(value);
+				items.set_len(i + 0x1);
+			}
 		}
 
+		let (buf, _) = items.into_raw_parts();
+
 		// SAFETY: This should be safe as `MaybeUninit<T>`
 		// is transparent to `T` and we have initialised
 		// every element. The original buffer is NOT
@@ -787,19 +796,13 @@ impl<T: Decode> Decode for Vec<T> {
 
 		let mut this = Self::with_capacity(len);
 
-		let buf = this.as_mut_ptr();
 		for i in 0x0..len {
 			let value = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-			// SAFETY: Each index is within bounds (i.e. capac-
-			// ity).
-			unsafe { buf.add(i).write(value) };
+			this.push(value);
 		}
 
-		// SAFETY: We have initialised the buffer.
-		unsafe { this.set_len(len); }
-
 		Result::Ok(this)
 	}
 }
diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index 2f4d504..57c4ea4 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -24,8 +24,6 @@ use crate::decode::{Decode, DecodeBorrowed, Input};
 use crate::encode::{Encode, Output, SizedEncode};
 use crate::error::{CollectionDecodeError, ItemDecodeError, LengthError};
 
-use core::mem::MaybeUninit;
-
 impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 	type Error = CollectionDecodeError<LengthError, ItemDecodeError<usize, T::Error>>;
 
@@ -34,16 +32,17 @@ impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 		let len = Decode::decode(input).unwrap();
 		if len > N { return Err(CollectionDecodeError::BadLength(LengthError { capacity: N, len })) };
 
-		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
+		let mut this = Self::default();
 
-		for (i, slot) in buf.iter_mut().take(len).enumerate() {
+		for i in 0x0..len {
 			let v = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-			slot.write(v);
+			this.buf[i].write(v);
+			this.len += 0x1;
 		}
 
-		Ok(Self { buf, len })
+		Ok(this)
 	}
 }
 
-- 
2.43.0


From 5378f11717aadc0f35fc3e8b9478239886f3e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 15/18] fix: drop the elements of a sized slice whose
 construction panics

---
 oct/src/sized_slice/iter.rs | 11 +++++------
 oct/src/sized_slice/mod.rs  | 19 ++-----------------
 2 files changed, 7 insertions(+), 23 deletions(-)

diff --git a/oct/src/sized_slice/iter.rs b/oct/src/sized_slice/iter.rs
index 82e1fca..6bf4d6d 100644
--- a/oct/src/sized_slice/iter.rs
+++ b/oct/src/sized_slice/iter.rs
@@ -21,7 +21,6 @@
 
 use crate::{SizedIter, SizedSlice};
 
-use core::mem::MaybeUninit;
 use core::slice;
 
 impl<T, const N: usize> FromIterator<T> for SizedSlice<T, N> {
@@ -29,17 +28,17 @@ impl<T, const N: usize> FromIterator<T> for SizedSlice<T, N> {
 	fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
 		let mut iter = iter.into_iter();
 
-		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
-		let mut len = 0x0;
+		// Drops the elements if the iterator panics.
+		let mut this = Self::default();
 
-		for item in &mut buf {
+		for item in &mut this.buf {
 			let Some(value) = iter.next() else { break };
 			item.write(value);
 
-			len += 0x1;
+			this.len += 0x1;
 		}
 
-		Self { buf, len }
+		this
 	}
 }
 
diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index 972504a..bc81a53 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -208,32 +208,17 @@ impl<T: Clone, const N: usize> SizedSlice<T, N> {
 	/// Constructs an empty, fixed-size vector.
 	#[inline]
 	pub fn new(data: &[T]) -> Result<Self, LengthError> {
-		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
-
 		let len = data.len();
 		if len > N { return Err(LengthError { capacity: N, len }) };
 
-		for (item, value) in buf.iter_mut().zip(data.iter()) {
-			item.write(value.clone());
-		}
-
-		Ok(Self { buf, len })
+		Ok(data.iter().cloned().collect())
 	}
 }
 
 impl<T: Clone, const N: usize> Clone for SizedSlice<T, N> {
 	#[inline]
 	fn clone(&self) -> Self {
-		unsafe {
-			let mut buf: [MaybeUninit<T>; N] = MaybeUninit::uninit().assume_init();
-
-			for i in 0x0..self.len() {
-				let value = self.get_unchecked(i).clone();
-				buf.get_unchecked_mut(i).write(value);
-			}
-
-			Self { buf, len: self.len }
-		}
+		self.iter().cloned().collect()
 	}
 }
 
-- 
2.43.0


From c57fabc249c262c38fdabd68494c77df5976e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 16/18] fix: initialise the whole buffer of default and cloned
 sized strings

into_raw_parts reads the buffer as fully initialised octets.
---
 oct/src/sized_str/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_str/mod.rs b/oct/src/sized_str/mod.rs
index 09b3044..7ffa9cc 100644
--- a/oct/src/sized_str/mod.rs
+++ b/oct/src/sized_str/mod.rs
@@ -71,7 +71,6 @@ mod conv;
 /// assert_eq!(size_of_val(&str1), size_of_val(&str3));
 /// assert_eq!(size_of_val(&str2), size_of_val(&str3));
 /// ```
-#[derive(Clone, Default)]
 pub struct SizedStr<const N: usize>(SizedSlice<u8, N>);
 
 impl<const N: usize> SizedStr<N> {
@@ -135,6 +134,14 @@ impl<const N: usize> SizedStr<N> {
 	}
 }
 
+impl<const N: usize> Clone for SizedStr<N> {
+	#[inline(always)]
+	fn clone(&self) -> Self {
+		// SAFETY: Our own octets are valid UTF-8 and fit.
+		unsafe { Self::from_utf8_unchecked(self.as_bytes()) }
+	}
+}
+
 impl<const N: usize> Debug for SizedStr<N> {
 	#[inline(always)]
 	fn fmt(&self, f: &mut Formatter) -> fmt::Result {
@@ -142,6 +149,14 @@ impl<const N: usize> Debug for SizedStr<N> {
 	}
 }
 
+impl<const N: usize> Default for SizedStr<N> {
+	#[inline(always)]
+	fn default() -> Self {
+		// SAFETY: The resulting string is zero lengthed.
+		unsafe { Self::from_raw_parts([0x00; N], 0x0) }
+	}
+}
+
 impl<const N: usize> Display for SizedStr<N> {
 	#[inline(always)]
 	fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-- 
2.43.0


From 38dea3b0f029707d578fa5d4ed2e195bbd88521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:46 +0000
Subject: [PATCH 17/18] fix: build without the standard library

Atomics were named through `std` and two error types were imported
regardless of the feature that defines them, so that no combination of
features without `std` or without `alloc` compiled.
---
 oct/src/decode/decode/mod.rs       | 30 +++++++++++++++++-------------
 oct/src/encode/encode/mod.rs       | 24 ++++++++++++------------
 oct/src/encode/sized_encode/mod.rs | 22 +++++++++++-----------
 3 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index b448122..f1e738f 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -25,15 +25,19 @@ mod tests;
 use crate::SizedSlice;
 use crate::decode::{DecodeBorrowed, Input};
 use crate::error::{
-	CStringDecodeError,
 	CharDecodeError,
 	CollectionDecodeError,
 	EnumDecodeError,
 	ItemDecodeError,
-	SystemTimeDecodeError,
 	Utf8Error,
 };
 
+#[cfg(feature = "alloc")]
+use crate::error::CStringDecodeError;
+
+#[cfg(feature = "std")]
+use crate::error::SystemTimeDecodeError;
+
 use core::cell::{Cell, RefCell};
 use core::convert::Infallible;
 use core::hash::Hash;
@@ -1046,65 +1050,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index b7fe86e..aa02624 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -938,7 +938,7 @@ macro_rules! impl_atomic {
 			/// The atomic object itself is read with the [`Relaxed`](core::sync::atomic::Ordering) ordering scheme.
 			#[inline(always)]
 			fn encode(&self, output: &mut ::oct::encode::Output) -> ::core::result::Result<(), Self::Error> {
-				use ::std::sync::atomic::Ordering;
+				use ::core::sync::atomic::Ordering;
 
 				self.load(Ordering::Relaxed).encode(output)
 			}
@@ -1087,65 +1087,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
diff --git a/oct/src/encode/sized_encode/mod.rs b/oct/src/encode/sized_encode/mod.rs
index 6c60dab..8f7eba0 100644
--- a/oct/src/encode/sized_encode/mod.rs
+++ b/oct/src/encode/sized_encode/mod.rs
@@ -468,65 +468,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
-- 
2.43.0


From 50a5416e869780fc8ce3dda0fa3a9926af940d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:46 +0000
Subject: [PATCH 18/18] fix: gate GenericDecodeError's string and time variants
 by the features that define them

`NullString` holds an error of the `alloc` feature but was gated by
`std` in its definition and by nothing in `Display`.
---
 oct/src/error/generic_decode_error.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/oct/src/error/generic_decode_error.rs b/oct/src/error/generic_decode_error.rs
index f20129d..0a3c49d 100644
--- a/oct/src/error/generic_decode_error.rs
+++ b/oct/src/error/generic_decode_error.rs
@@ -28,12 +28,14 @@ use crate::error::{
 	NonZeroDecodeError,
 	LengthError,
 	Utf8Error,
-	SystemTimeDecodeError,
 };
 
 #[cfg(feature = "alloc")]
 use crate::error::CStringDecodeError;
 
+#[cfg(feature = "std")]
+use crate::error::SystemTimeDecodeError;
+
 use core::convert::Infallible;
 use core::error::Error;
 use core::fmt::{self, Display, Formatter};
@@ -51,8 +53,8 @@ pub enum GenericDecodeError {
 	BadString(Utf8Error),
 
 	/// A C-like string contained a null byte.
-	#[cfg(feature = "std")]
-	#[cfg_attr(doc, doc(cfg(feature = "std")))]
+	#[cfg(feature = "alloc")]
+	#[cfg_attr(doc, doc(cfg(feature = "alloc")))]
 	NullString(CStringDecodeError),
 
 	/// A non-null integer was null.
@@ -82,6 +84,7 @@ impl Display for GenericDecodeError {
 			Self::BadString(ref e)
 			=> write!(f, "{e}"),
 
+			#[cfg(feature = "alloc")]
 			Self::NullString(ref e)
 			=> write!(f, "{e}"),
 
@@ -107,7 +110,7 @@ impl Error for GenericDecodeError {
 		match *self {
 			Self::BadString(ref e) => Some(e),
 
-			#[cfg(feature = "std")]
+			#[cfg(feature = "alloc")]
 			Self::NullString(ref e) => Some(e),
 
 			Self::NullInteger(ref e) => Some(e),
-- 
2.43.0

