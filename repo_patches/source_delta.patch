From 4886e916e045b46e5ad63e8ff4b3aa31acfc3098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 01/26] fix: derive(FixedLength) emits a terminated constant
 for tuple structs

---
 estimable_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estimable_derive/src/lib.rs b/estimable_derive/src/lib.rs
index 872e68f..710302d 100644
--- a/estimable_derive/src/lib.rs
+++ b/estimable_derive/src/lib.rs
@@ -38,8 +38,8 @@ fn impl_fixedlength(ast: &syn::DeriveInput) -> TokenStream {
                     quote! {
                     impl #fixed_len_trait for #name {
                         const LEN : usize =
-                            #( <#ty as #fixed_len_trait>::LEN )+*
-                        };
+                            #( <#ty as #fixed_len_trait>::LEN )+*;
+                        }
                     }
                 }
             },
-- 
2.43.0


From 4081c543b40e3794314a559e802e168e56451abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 02/26] fix: report true widths when a context-window cannot be
 opened, without overflow

---
 src/internal/offset.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 3ce1ddc..310a040 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -291,17 +291,20 @@ impl ContextOffset {
     /// of the stack, assuming it is non-empty.
     pub fn set_fit(&mut self, winsize: usize) -> ParseResult<()> {
         let cur: usize = self.index();
-        let new_tgt: usize = cur + winsize;
-        if new_tgt > self.abs {
-            let bytes_left = self.abs - winsize;
-            let request = winsize;
-            Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
+        let bytes_left: usize = self.abs - cur;
+        if winsize > bytes_left {
+            return Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
                 bytes_left,
-                request,
-            }))
-        } else {
-            self.frames.push_frame(new_tgt)
+                request: winsize,
+            }));
         }
+        self.frames.push_frame(cur + winsize).map_err(|_| {
+            // the frame-stack deals in target offsets, so express both quantities as widths
+            ParseError::Window(WindowError::OpenWouldExceedWindow {
+                limit: self.rem(),
+                request: winsize,
+            })
+        })
     }
 
     /// Tests whether the current offset matches the goal
-- 
2.43.0


From 713d7a7f8ab30b0e22a28652978d422e1b8e6250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 03/26] fix: advancing the offset by a huge amount fails
 instead of overflowing

---
 src/internal/offset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 310a040..3b75cf5 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -40,7 +40,7 @@ impl Index {
     #[inline]
     pub fn increment_checked(&mut self, n: usize, lim: usize) -> (usize, bool) {
         let ret = self.0;
-        let is_valid = self.0 + n <= lim;
+        let is_valid = n <= lim.saturating_sub(self.0);
         if is_valid {
             self.0 += n;
         }
-- 
2.43.0


From 96be6fd550e01f99404526f4d911de3115c9bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 04/26] fix: decoding VPadded with fewer bytes left than it
 reserves is an error, not a panic

---
 src/dynamic.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index e6470ce..201a0f3 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -59,6 +59,7 @@
 use crate::conv::len::{Estimable, FixedLength};
 use crate::conv::{Decode, Encode, EncodeLength};
 use crate::int::u30;
+use crate::parse::error::{ParseError, WindowError};
 use crate::parse::{ParseResult, Parser};
 use std::borrow::Borrow;
 use std::convert::TryFrom;
@@ -465,16 +466,17 @@ impl<T: Decode, const N: usize> Decode for VPadded<T, N> {
     where
         Self: Sized,
     {
-        let _rem = p.remainder();
-        debug_assert!(
-            _rem >= N,
-            "Cannot parse VPadded<{}, {}> with {} (< {}) bytes remaining",
-            std::any::type_name::<T>(),
-            N,
-            _rem,
-            N
-        );
-        p.set_fit(_rem - N)?;
+        match p.remainder().checked_sub(N) {
+            Some(width) => p.set_fit(width)?,
+            None => {
+                // fewer than the `N` bytes to be reserved are left in this context
+                return Err(ParseError::Window(WindowError::ConsumeWouldExceedLimit {
+                    offset: p.offset(),
+                    requested: N,
+                    limit: p.view_len(),
+                }));
+            }
+        }
         let ret = T::parse(p)?;
         p.enforce_target()?;
         Ok(Self(ret))
-- 
2.43.0


From 9d5bfbeb62a05c95520064dff223e708feb79448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 05/26] fix: a failed attempt to close a context-window leaves
 it open

---
 src/internal/offset.rs | 7 +++++--
 src/parse/mod.rs       | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 3b75cf5..82b2543 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -356,10 +356,13 @@ impl ContextOffset {
     pub fn enforce_target(&mut self) -> crate::parse::error::ParseResult<()> {
         let cur: usize = self.index();
 
-        match self.frames.pop() {
+        match self.frames.peek() {
             None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
             Some(tgt) => match tgt.cmp(&cur) {
-                std::cmp::Ordering::Equal => Ok(()),
+                std::cmp::Ordering::Equal => {
+                    let _ = self.frames.pop();
+                    Ok(())
+                }
                 std::cmp::Ordering::Greater => {
                     Err(ParseError::Window(WindowError::CloseWithResidue {
                         residual: tgt - cur,
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index baf3226..0f3ac25 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -804,10 +804,12 @@ pub mod byteparser {
                                 }
                                 _ => {
                                     ret = Err(InvariantError::ErrorCaseUnexpected(w_err));
+                                    break;
                                 }
                             }
                         } else {
                             ret = Err(InvariantError::ErrorKindUnexpected(e));
+                            break;
                         }
                     }
                 }
@@ -995,10 +997,12 @@ pub mod memoparser {
                                 }
                                 _ => {
                                     ret = Err(InvariantError::ErrorCaseUnexpected(w_err));
+                                    break;
                                 }
                             }
                         } else {
                             ret = Err(InvariantError::ErrorKindUnexpected(e));
+                            break;
                         }
                     }
                 }
-- 
2.43.0


From 9349d11763011b11b7cf7c2cdae9d6c3c2bf5174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 06/26] fix: SliceParser no longer treats its whole buffer as a
 context-window

---
 src/internal/view.rs |  9 +++++++++
 src/parse/mod.rs     | 34 ++++++++++++++++++++--------------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/internal/view.rs b/src/internal/view.rs
index 8c0b0f2..328d809 100644
--- a/src/internal/view.rs
+++ b/src/internal/view.rs
@@ -71,6 +71,15 @@ pub use smallvec_viewstack::ViewStack;
 #[cfg(not(feature = "smallvec_viewstack"))]
 pub use vec_viewstack::ViewStack;
 
+impl<'a> ViewStack<'a> {
+    /// Returns `true` if there is at least one open context-window, i.e. any
+    /// view beyond the outermost one that represents the parse-buffer itself.
+    #[inline]
+    pub fn has_window(&self) -> bool {
+        self.0.len() > 1
+    }
+}
+
 impl<'a> std::fmt::Debug for ViewStack<'a> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{:?}", &self.0)
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 0f3ac25..46af0ee 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1145,6 +1145,7 @@ pub mod sliceparser {
         }
 
         fn set_fit(&mut self, n: usize) -> std::result::Result<(), ParseError> {
+            let has_window = self.view_stack.has_window();
             match self.view_stack.peek_mut() {
                 None if n == 0 => Ok(()),
                 None => Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
@@ -1159,11 +1160,16 @@ pub mod sliceparser {
                             self.view_stack.push_unchecked(novel);
                             Ok(())
                         }
-                    } else {
+                    } else if has_window {
                         Err(ParseError::Window(WindowError::OpenWouldExceedWindow {
                             limit: frame.len(),
                             request: n,
                         }))
+                    } else {
+                        Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
+                            bytes_left: frame.len(),
+                            request: n,
+                        }))
                     }
                 }
             }
@@ -1171,22 +1177,22 @@ pub mod sliceparser {
 
         #[inline]
         fn test_target(&mut self) -> ParseResult<bool> {
-            if let Some(t) = self.view_stack.peek() {
-                Ok(t.is_empty())
-            } else {
-                Ok(false)
-            }
+            Ok(self.view_stack.has_window() && self.remainder() == 0)
         }
 
         fn enforce_target(&mut self) -> ParseResult<()> {
-            match self.view_stack.pop() {
-                None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
-                Some(_frame) => match _frame.len() {
-                    0 => Ok(()),
-                    residual => Err(ParseError::Window(WindowError::CloseWithResidue {
-                        residual,
-                    })),
-                },
+            // the outermost view is the parse-buffer itself, which is not a context-window
+            if !self.view_stack.has_window() {
+                return Err(ParseError::Window(WindowError::CloseWithoutWindow));
+            }
+            match self.remainder() {
+                0 => {
+                    let _ = self.view_stack.pop();
+                    Ok(())
+                }
+                residual => Err(ParseError::Window(WindowError::CloseWithResidue {
+                    residual,
+                })),
             }
         }
 
-- 
2.43.0


From c45fa4c145cbf42ad5638ecb59fbb2f0943670a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 07/26] fix: LeftoverState is empty when it holds no bytes, and
 append empties its argument

---
 src/parse/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 46af0ee..99dc1d5 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -518,7 +518,7 @@ pub mod cleanup {
         pub fn append(&mut self, other: &mut Vec<u8>) {
             match self {
                 LeftoverState::Empty => {
-                    *self = Self::Windowless(other.clone());
+                    *self = Self::Windowless(std::mem::take(other));
                 }
                 LeftoverState::Windowless(buf) => buf.append(other),
                 LeftoverState::Windowed(sbuf) => sbuf.append_current(other),
@@ -596,7 +596,7 @@ pub mod cleanup {
             match self {
                 LeftoverState::Empty => true,
                 /* NOTE: the following two cases are not expected to ever arise, but are handled for completeness */
-                LeftoverState::Windowed(sbuf) => sbuf.is_empty(),
+                LeftoverState::Windowed(sbuf) => sbuf.len() == 0,
                 LeftoverState::Windowless(buf) => buf.is_empty(),
             }
         }
-- 
2.43.0


From a40917e2656ffc6505eb76c5d2b259df12b67813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 08/26] fix: the length estimate of natural number zero is one
 byte

---
 src/zarith.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zarith.rs b/src/zarith.rs
index 125b43f..eddd635 100644
--- a/src/zarith.rs
+++ b/src/zarith.rs
@@ -105,7 +105,8 @@ pub mod n {
         const KNOWN: Option<usize> = None;
 
         fn unknown(&self) -> usize {
-            let n: usize = self.0.bits() as usize;
+            // Even zero, which has no significant bits, is encoded as one byte
+            let n: usize = usize::max(1, self.0.bits() as usize);
             Integer::div_ceil(&n, &7)
         }
     }
-- 
2.43.0


From c1e3e769a6d8afa680604d3c8539ef8499975ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 09/26] fix: FixSeq and LimSeq keep the elements they are
 collected from or extended with

---
 src/seq/fix.rs | 11 +++++------
 src/seq/lim.rs | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index cafd45b..496c8b2 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -165,11 +165,11 @@ impl<T, const N: usize> std::iter::Extend<T> for FixSeq<T, N> {
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated FixSeq"))
         };
         let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        let items: Vec<T> = i.by_ref().take(rem).collect();
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
+        self.0.extend(items);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -185,11 +185,10 @@ impl<T, const N: usize> FromIterator<T> for FixSeq<T, N> {
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let ret = inner::Inner::from_iter(i.by_ref().take(N));
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::from_iter(max_iter);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 171e7b9..91c9b82 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -199,11 +199,11 @@ impl<T, const N: usize> std::iter::Extend<T> for LimSeq<T, N> {
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated LimSeq"))
         };
         let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        let items: Vec<T> = i.by_ref().take(rem).collect();
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
+        self.0.extend(items);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -219,11 +219,10 @@ impl<T, const N: usize> FromIterator<T> for LimSeq<T, N> {
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let ret = inner::Inner::<T, N>::from_iter(i.by_ref().take(N));
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::<T, N>::from_iter(max_iter);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
-- 
2.43.0


From 44cb307f7950fcbd7a9bd2f377ca8996911ad8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 10/26] fix: FixSeq enforces its exact length when encoded

---
 src/seq/fix.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index 496c8b2..0caeb17 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -267,7 +267,15 @@ impl<T: Estimable, const N: usize> Estimable for FixSeq<T, N> {
 }
 
 impl<T: Encode, const N: usize> Encode for FixSeq<T, N> {
+    /// # Panics
+    ///
+    /// Panics if `self` does not hold exactly `N` elements
     fn write_to<U: Target>(&self, buf: &mut U) -> usize {
+        assert_eq!(
+            self.len(),
+            N,
+            "cannot encode FixSeq without exactly {N} elements"
+        );
         self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()
     }
 }
-- 
2.43.0


From ee6c70ef541cc1414486f3d4f6ddb85685b06ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 11/26] fix: encoding an over-saturated LimSeq panics as
 documented

---
 src/seq/lim.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 91c9b82..daab56d 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -287,7 +287,14 @@ impl<T: Estimable, const N: usize> Estimable for LimSeq<T, N> {
 }
 
 impl<T: Encode, const N: usize> Encode for LimSeq<T, N> {
+    /// # Panics
+    ///
+    /// Panics if `self` holds more than `N` elements
     fn write_to<U: Target>(&self, buf: &mut U) -> usize {
+        assert!(
+            self.len() <= N,
+            "cannot encode LimSeq with more than {N} elements"
+        );
         self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()
     }
 }
-- 
2.43.0


From d150cca3980b868f6393c44af4b98e248063ed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 12/26] fix: RangedInt conversions, bounds and default denote
 numbers when MIN > 0

---
 src/error.rs | 28 ++++++++++++++++++++++++++
 src/int.rs   | 57 ++++++++++++++++++++++++++++++++++++++--------------
 2 files changed, 70 insertions(+), 15 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index f15cae6..025b0de 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -242,6 +242,34 @@ impl<Ext: Debug> BoundsError<Ext> {
     }
 }
 
+impl<Ext: Debug> BoundsError<Ext> {
+    /// Checks that the number `val` falls into the specified range `[min, max]`, returning
+    /// `Ok(val)` if this condition holds.
+    ///
+    /// Unlike [`restrict`](Self::restrict), `val` is always the number itself and is never
+    /// interpreted as an offset from `min`, even when `min > 0`.
+    pub fn restrict_numeric<T, U>(val: T, min: U, max: U) -> Result<T, Self>
+    where
+        Ext: PartialOrd + Copy,
+        T: std::convert::TryInto<Ext> + Copy,
+        U: Into<Ext>,
+        BoundsError<Ext>: From<T::Error>,
+    {
+        let min: Ext = min.into();
+        let max: Ext = max.into();
+        let val_ext: Ext = val.try_into()?;
+        if min > max {
+            Err(Self::InvalidBounds { min, max })
+        } else if val_ext < min {
+            Err(Self::Underflow { min, val: val_ext })
+        } else if val_ext > max {
+            Err(Self::Overflow { max, val: val_ext })
+        } else {
+            Ok(val)
+        }
+    }
+}
+
 impl BoundsError<f64> {
     pub fn restrict_float<T>(val: T, min: f64, max: f64) -> Result<f64, Self>
     where
diff --git a/src/int.rs b/src/int.rs
index e8f8fa4..4e0e1cc 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -268,8 +268,9 @@ where
             MAX
         );
 
-        let underlying: i64 = if MIN <= 0 { x } else { x - MIN } as i64;
-        match I::try_from(BoundsError::<i64>::restrict(underlying, MIN, MAX)?) {
+        let numeric = BoundsError::<i64>::restrict_numeric(x as i64, MIN, MAX)?;
+        let underlying: i64 = if MIN <= 0 { numeric } else { numeric - MIN as i64 };
+        match I::try_from(underlying) {
             Ok(val) => Ok(Self(val)),
             Err(e) => Err(BoundsError::Failed(e.into())),
         }
@@ -378,8 +379,12 @@ pub mod ranged_int_impls {
                 /// Returns the value in the range [MIN..MAX] that is closest to the
                 /// value of `Default::default()` for the backing type.
                 fn default() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self((<$t>::default() as i32).clamp(MIN, MAX) as $t)
+                    if MIN > 0 {
+                        // the closest value is `MIN` itself, at offset zero from `MIN`
+                        Self(<$t>::default())
+                    } else {
+                        Self((<$t>::default() as i32).clamp(MIN, MAX) as $t)
+                    }
                 }
             }
         };
@@ -395,24 +400,32 @@ pub mod ranged_int_impls {
     macro_rules! minval_maxval {
         ( $t:ty ) => {
             impl<const MIN_I32: i32, const MAX_I32: i32> RangedInt<$t, MIN_I32, MAX_I32> {
-                // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                /// The lower bound as a number, which is only meaningful
+                /// when it is representable within the backer type
                 pub const MIN: $t = MIN_I32 as $t;
 
-                // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                /// The upper bound as a number, which is only meaningful
+                /// when it is representable within the backer type
                 pub const MAX: $t = MAX_I32 as $t;
 
                 /// Returns the minimum legal value of `Self`
                 #[inline]
                 pub const fn min_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self(Self::MIN)
+                    if MIN_I32 > 0 {
+                        Self(0)
+                    } else {
+                        Self(MIN_I32 as $t)
+                    }
                 }
 
                 /// Returns the maximum legal value of `Self`
                 #[inline]
                 pub const fn max_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self(Self::MAX)
+                    if MIN_I32 > 0 {
+                        Self((MAX_I32 - MIN_I32) as $t)
+                    } else {
+                        Self(MAX_I32 as $t)
+                    }
                 }
             }
         };
@@ -429,9 +442,20 @@ pub mod ranged_int_impls {
     ( $backer:ty => $( $dest:ty ),+ ) => {
         $(
             impl<const MIN: i32, const MAX: i32> From<RangedInt<$backer, MIN, MAX>> for $dest {
-                // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                /// Returns the numeric value of a `RangedInt`
+                ///
+                /// # Panics
+                ///
+                /// When `MIN > 0`, panics if the numeric value is not representable
+                /// by the destination type
                 fn from(val: RangedInt<$backer, MIN, MAX>) -> Self {
-                    val.0 as $dest
+                    if MIN > 0 {
+                        (val.0 as i64 + MIN as i64)
+                            .try_into()
+                            .expect("numeric value is out of range of the destination type")
+                    } else {
+                        val.0 as $dest
+                    }
                 }
             }
         )+
@@ -445,8 +469,11 @@ pub mod ranged_int_impls {
                 type Error = <$backer as TryInto<$dest>>::Error;
 
                 fn try_from(val: RangedInt<$backer, MIN, MAX>) -> Result<Self, Self::Error> {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    val.0.try_into()
+                    if MIN > 0 {
+                        (val.0 as i64 + MIN as i64).try_into()
+                    } else {
+                        val.0.try_into()
+                    }
                 }
             }
         )+
@@ -460,7 +487,7 @@ pub mod ranged_int_impls {
                 type Error = BoundsError<i128>;
 
                 fn try_from(val: $src) -> Result<Self, Self::Error> {
-                    match BoundsError::restrict(val, MIN, MAX) {
+                    match BoundsError::restrict_numeric(val, MIN, MAX) {
                         Ok(x) => unsafe { Ok(Self::from_numeric_unchecked(x)) }
                         Err(e) => Err(e)
                     }
-- 
2.43.0


From ec8ccfc4ae46ddb5eaae9d3b04f0762c1bd02331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 13/26] fix: an out-of-range length prefix is an error when
 skipped or entered, not a panic

---
 src/dynamic.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index 201a0f3..84ce75e 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -268,7 +268,7 @@ where
 {
     fn parse_as_usize<P: Parser + ?Sized>(p: &mut P) -> ParseResult<usize> {
         let raw_bytes = p.consume(Self::LEN)?;
-        unsafe { Ok(Self::marshall_usize(raw_bytes)) }
+        unsafe { Self::marshall_usize(raw_bytes) }
     }
 
     /// Returns a `uX`-style name for LenPref, as is common for writing
@@ -282,33 +282,34 @@ where
     fn max_len() -> usize;
 }
 mod private {
+    use crate::parse::ParseResult;
+
     pub trait Sealed {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize;
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize>;
     }
 
     impl Sealed for u8 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 1]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for u16 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 2]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for crate::int::u30 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 4]>::try_from(bytes).unwrap_unchecked();
-            let raw = i32::from_be_bytes(bytes);
-            let _ = crate::int::u30::try_from_i32(raw)
-                .expect("Inherent conversion from i32->u30 failed");
-            raw as usize
+            let raw = u32::from_be_bytes(bytes);
+            let val = crate::int::u30::try_from_underlying(raw)?;
+            Ok(val.into())
         }
     }
 }
-- 
2.43.0


From e0414d627e8af36f85e121210a31a75fedc1aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 14/26] fix: VecBuffer refuses the byte past its end and ranges
 whose end overflows

---
 src/parse/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 96eab54..8cd4f53 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -194,7 +194,7 @@ impl VecBuffer {
     ///
     /// Will panic if `ix + len` is out-of-bounds
     pub fn get_slice(&self, ix: usize, len: usize) -> &[u8] {
-        assert!(ix + len <= self.len());
+        assert!(ix <= self.len() && len <= self.len() - ix);
         unsafe { self.get_slice_unchecked(ix, len) }
     }
 
@@ -216,7 +216,7 @@ impl VecBuffer {
     ///
     /// Will panic if the `ix` is out-of-bounds
     pub fn get_byte(&self, ix: usize) -> u8 {
-        assert!(ix <= self.len());
+        assert!(ix < self.len());
         unsafe { self.get_byte_unchecked(ix) }
     }
 }
-- 
2.43.0


From 641fbf79cf3b60aa31b877b9800ee5a72733f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 15/26] fix: MemoParser records the bytes passed over by
 skip_exactly

---
 src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 99dc1d5..efbabf7 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1027,6 +1027,7 @@ pub mod memoparser {
         fn skip_exactly(&mut self, nbytes: usize) -> ParseResult<()> {
             let (ix, adv) = self.offset.advance(nbytes);
             if adv {
+                self.munches.push(nbytes);
                 Ok(())
             } else {
                 let offset = ix;
-- 
2.43.0


From 59696f24b4a9ca692a7249739200ebc1f34cd811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 16/26] fix: hex parsing accepts digits only and never panics
 on non-ASCII text

---
 src/hexstring.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/hexstring.rs b/src/hexstring.rs
index e1bc353..e50554b 100644
--- a/src/hexstring.rs
+++ b/src/hexstring.rs
@@ -106,6 +106,15 @@ pub(crate) mod util {
 
     pub(crate) use write_hex;
 
+    /// Combines two ASCII hexadecimal digits, of either case, into the byte they spell,
+    /// or returns `None` if either one is not a hexadecimal digit.
+    #[inline]
+    fn byte_of_digits(hi: u8, lo: u8) -> Option<u8> {
+        let hi = (hi as char).to_digit(16)?;
+        let lo = (lo as char).to_digit(16)?;
+        Some((hi << 4 | lo) as u8)
+    }
+
     /// Attempt to parse a hexadecimally encoded string-like type, returning either
     /// a `Vec<u8>` holding the decoded bytes or an error containing the invalid
     /// string.
@@ -138,12 +147,13 @@ pub(crate) mod util {
 
         let bytes_len: usize = ascii_len / 2;
 
+        let digits: &[u8] = src.as_bytes();
         let mut dst = Vec::with_capacity(bytes_len);
 
         for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(word) => dst.push(word),
-                Err(_) => return Err(HexConvError::NonHex(src.to_string())),
+            match byte_of_digits(digits[ix * 2], digits[ix * 2 + 1]) {
+                Some(word) => dst.push(word),
+                None => return Err(HexConvError::NonHex(src.to_string())),
             }
         }
         Ok(dst)
@@ -170,9 +180,11 @@ pub(crate) mod util {
             return false;
         }
 
+        let digits: &[u8] = src.as_bytes();
+
         for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(byte) if byte == tgt[ix] => continue,
+            match byte_of_digits(digits[ix * 2], digits[ix * 2 + 1]) {
+                Some(byte) if byte == tgt[ix] => continue,
                 _ => return false,
             }
         }
-- 
2.43.0


From 38bbf7e4f00d7b59978d3e4d26279fb37e2d4ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 17/26] fix: MemoBuffer display separates segments, not bytes

---
 src/builder/memo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder/memo.rs b/src/builder/memo.rs
index 0860090..423d493 100644
--- a/src/builder/memo.rs
+++ b/src/builder/memo.rs
@@ -117,8 +117,9 @@ impl std::fmt::Display for MemoBuffer {
         let mut ix: usize = 0;
         for l in self.lens.iter() {
             for &byte in &buf[ix..ix + l] {
-                write!(f, "{byte:02x}|")?
+                write!(f, "{byte:02x}")?
             }
+            write!(f, "|")?;
             ix += l;
         }
         write!(f, "]")
-- 
2.43.0


From e84cbadc8286bf4a07102062fa209321527cdbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 18/26] fix: accept &String as input under implicit_hexstring

With the feature on, VecBuffer's conversion from &String asks for one of
HexString's that did not exist, so such input did not compile.
---
 src/hexstring.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hexstring.rs b/src/hexstring.rs
index e50554b..4fa41b4 100644
--- a/src/hexstring.rs
+++ b/src/hexstring.rs
@@ -570,6 +570,7 @@ macro_rules! impl_try_from {
 }
 
 impl_try_from!(&str);
+impl_try_from!(&String);
 impl_try_from!(String);
 impl_try_from!(std::boxed::Box<str>);
 impl_try_from!(std::rc::Rc<str>);
-- 
2.43.0


From 1c774632ba3a8e9e99d61170f24f78359bbb6904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 19/26] fix: cstyle! accepts the trailing comma its
 documentation allows

---
 src/adt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adt.rs b/src/adt.rs
index a1c0369..275dadc 100644
--- a/src/adt.rs
+++ b/src/adt.rs
@@ -44,7 +44,7 @@
 ///
 #[macro_export]
 macro_rules! cstyle {
-    ( $name:ident, $backer:ident, { $( $vname:ident = $vdisc:expr ),+ } ) => {
+    ( $name:ident, $backer:ident, { $( $vname:ident = $vdisc:expr ),+ $(,)? } ) => {
         #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
         #[repr($backer)]
         pub enum $name {
-- 
2.43.0


From ee22a73424d3ee4d65f99396f50a7399b3c2ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 20/26] fix: let the expose_internal feature compile

The feature re-exported the private module under its own name, which is both a
duplicate definition and a private re-export; make the module itself public.
---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a311c8..d190796 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -68,6 +68,9 @@ pub mod fixed;
 pub mod float;
 pub mod hexstring;
 pub mod int;
+#[cfg(feature = "expose_internal")]
+pub mod internal;
+#[cfg(not(feature = "expose_internal"))]
 mod internal;
 pub mod parse;
 pub mod prelude;
@@ -76,9 +79,6 @@ pub mod schema;
 pub mod seq;
 pub mod zarith;
 
-#[cfg(feature = "expose_internal")]
-pub use crate::internal;
-
 pub use crate::autobox::AutoBox;
 pub use crate::builder::{memo::MemoBuilder, strict::StrictBuilder, Builder};
 pub use crate::conv::{
-- 
2.43.0


From df5fb2a9fdee3f17f51e55d7c7bcd54b3f3e4d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 21/26] fix: decoding () propagates a failed conversion of its
 input like every other type

---
 src/prim.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/prim.rs b/src/prim.rs
index 82fec33..b7ef22f 100644
--- a/src/prim.rs
+++ b/src/prim.rs
@@ -1,6 +1,8 @@
 use crate::conv::error::{DecodeError, DecodeResult};
 use crate::conv::{target::Target, Decode, Encode};
-use crate::parse::{memoparser::MemoParser, ParseResult, Parser, TryIntoParser};
+#[cfg(feature = "check_complete_parse")]
+use crate::parse::memoparser::MemoParser;
+use crate::parse::{ParseResult, Parser, TryIntoParser};
 
 impl Encode for () {
     fn write_to<U: Target>(&self, _: &mut U) -> usize {
@@ -74,23 +76,15 @@ impl Decode for () {
                 })
             }
         } else {
-            fn try_decode<U, P>(_inp: U) -> DecodeResult<()>
+            fn try_decode<U, P>(inp: U) -> DecodeResult<()>
             where
                 P: Parser,
                 U: TryIntoParser<P>,
-                DecodeError: From<U::Error> { Ok(()) }
-
-            fn decode_memo<U>(_inp: U) -> Self
-            where
-                U: TryIntoParser<MemoParser>,
-                DecodeError: From<U::Error>,
-            { () }
-
-            fn decode<U>(_inp: U) -> Self
-            where
-                U: TryIntoParser,
                 DecodeError: From<U::Error>,
-            { () }
+            {
+                let _: P = inp.try_into_parser()?;
+                Ok(())
+            }
         }
     }
 }
-- 
2.43.0


From 180764d231b81176bc4c827ed74e6c4c6ded2dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 22/26] fix: a Sequence of zero-width elements no longer
 decodes forever

---
 src/seq/mod.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/seq/mod.rs b/src/seq/mod.rs
index 1985488..b5043f0 100644
--- a/src/seq/mod.rs
+++ b/src/seq/mod.rs
@@ -48,7 +48,7 @@
 //! variable in length.
 
 use crate::conv::{len::Estimable, target::Target, Decode, Encode};
-use crate::parse::{ParseResult, Parser};
+use crate::parse::{error::WindowError, ParseResult, Parser};
 
 use std::fmt::Debug;
 use std::iter::FromIterator;
@@ -228,11 +228,22 @@ impl<T: Decode> Decode for Sequence<T> {
     fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
         let mut seq: Vec<T> = Vec::new();
 
-        while p.remainder() != 0 {
-            seq.push(T::parse(p)?);
-        }
+        loop {
+            let residual = p.remainder();
+
+            if residual == 0 {
+                return Ok(Self(seq));
+            }
+
+            let elem = T::parse(p)?;
 
-        Ok(Self(seq))
+            // Elements that consume nothing can never use up what is left
+            if p.remainder() == residual {
+                return Err(WindowError::CloseWithResidue { residual }.into());
+            }
+
+            seq.push(elem);
+        }
     }
 }
 
-- 
2.43.0


From 5a390f470f30eb4df45f556e37d37a29852c7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:42 +0000
Subject: [PATCH 23/26] fix: decoding a LimSeq or FixSeq no longer allocates
 its bound up front

---
 src/seq/fix.rs | 3 ++-
 src/seq/lim.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index 0caeb17..1f63db9 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -285,7 +285,8 @@ where
     T: Decode,
 {
     fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
-        let mut seq = Self::new();
+        // NOTE: unlike `Self::new`, this allocates no room for elements the input may not hold
+        let mut seq = Self(inner::Inner::new());
 
         while p.remainder() != 0 && seq.len() < N {
             seq.try_push(T::parse(p)?)?;
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index daab56d..4768278 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -304,7 +304,8 @@ where
     T: Decode,
 {
     fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
-        let mut seq = Self::new();
+        // NOTE: unlike `Self::new`, this allocates no room for elements the input may not hold
+        let mut seq = Self(inner::Inner::new());
 
         while p.remainder() != 0 {
             seq.try_push(T::parse(p)?)?;
-- 
2.43.0


From 95741b90d4799dc3c739517bb8cb208632b7a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:30 +0000
Subject: [PATCH 24/26] fix: encoding nested length-prefixed values took time
 exponential in their depth

---
 src/conv/target.rs |  9 +++++++++
 src/dynamic.rs     | 12 ++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/conv/target.rs b/src/conv/target.rs
index ce3b1be..5bc85c5 100644
--- a/src/conv/target.rs
+++ b/src/conv/target.rs
@@ -10,6 +10,13 @@
 ///
 /// All implementors of `Target` must define these methods as infallible and total.
 pub trait Target {
+    /// Whether this target discards what is pushed to it, so that only the returned
+    /// counts are of interest.
+    ///
+    /// This allows length-prefixed values to be measured in a single pass, without first
+    /// determining the length of a payload that is about to be counted in any case.
+    const COUNTS_ONLY: bool = false;
+
     /// Performs any necessary operations that amortize the cost incurred by
     /// writing a certain number of additional bytes to the end of the `Target`,
     /// over the course of an unknown number of push operations.
@@ -110,6 +117,8 @@ macro_rules! resolve_zero {
 pub type ByteCounter = std::io::Sink;
 
 impl Target for ByteCounter {
+    const COUNTS_ONLY: bool = true;
+
     #[inline(always)]
     fn anticipate(&mut self, _: usize) {}
 
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 84ce75e..a734d0c 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -371,6 +371,18 @@ impl<S: LenPref, T: EncodeLength> Encode for Dynamic<S, T> {
     /// value of the type is unsound.
     ///
     fn write_to<U: crate::conv::target::Target>(&self, buf: &mut U) -> usize {
+        if U::COUNTS_ONLY {
+            // `enc_len` counts in the same way, so that calling it here as well would
+            // double the work for each level of nested `Dynamic` values
+            let l: usize = self.contents.write_to(buf);
+            assert!(
+                l <= S::max_len(),
+                "payload length {} unrepresentable as {}",
+                l,
+                S::suffix(),
+            );
+            return <S as FixedLength>::LEN + l + buf.resolve_zero();
+        }
         let l: usize = self.contents.enc_len();
         assert!(
             l <= S::max_len(),
-- 
2.43.0


From c6c4311f09e4ce83e46a3e22000986b4bd536db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:45 +0000
Subject: [PATCH 25/26] fix: extending or collecting a FixSeq or LimSeq polled
 the iterator past its end

---
 src/seq/fix.rs | 4 ++--
 src/seq/lim.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index 1f63db9..b08ddcc 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -164,7 +164,7 @@ impl<T, const N: usize> std::iter::Extend<T> for FixSeq<T, N> {
             N.checked_sub(self.len())
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated FixSeq"))
         };
-        let mut i = iter.into_iter();
+        let mut i = iter.into_iter().fuse();
         let items: Vec<T> = i.by_ref().take(rem).collect();
         if i.next().is_some() {
             panic!("attempted extend operation would overflow FixSeq capacity");
@@ -184,7 +184,7 @@ impl<T, const N: usize> FromIterator<T> for FixSeq<T, N> {
     ///
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        let mut i = iter.into_iter();
+        let mut i = iter.into_iter().fuse();
         let ret = inner::Inner::from_iter(i.by_ref().take(N));
         if i.next().is_some() {
             panic!("attempted from_iter operation would overflow FixSeq capacity");
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 4768278..d3fd9f1 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -198,7 +198,7 @@ impl<T, const N: usize> std::iter::Extend<T> for LimSeq<T, N> {
             N.checked_sub(self.len())
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated LimSeq"))
         };
-        let mut i = iter.into_iter();
+        let mut i = iter.into_iter().fuse();
         let items: Vec<T> = i.by_ref().take(rem).collect();
         if i.next().is_some() {
             panic!("attempted extend operation would overflow LimSeq capacity");
@@ -218,7 +218,7 @@ impl<T, const N: usize> FromIterator<T> for LimSeq<T, N> {
     ///
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        let mut i = iter.into_iter();
+        let mut i = iter.into_iter().fuse();
         let ret = inner::Inner::<T, N>::from_iter(i.by_ref().take(N));
         if i.next().is_some() {
             panic!("attempted from_iter operation would overflow LimSeq capacity");
-- 
2.43.0


From 20f4c7d052d97d2190af2e240ce0797b82829430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:21 +0000
Subject: [PATCH 26/26] fix: SplitVec stays balanced when an iterator or a
 clone panics while extending it

---
 src/internal/splitvec.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/internal/splitvec.rs b/src/internal/splitvec.rs
index f1e06bd..eb7fc42 100644
--- a/src/internal/splitvec.rs
+++ b/src/internal/splitvec.rs
@@ -535,6 +535,30 @@ impl<T> SplitVec<T> {
         self.spans.active_mut().add_assign(amount)
     }
 
+    /// Fills the value-buffer, and counts whatever was appended to it as part of the current span
+    ///
+    /// The count is kept even if `fill` panics, so that the invariants of
+    /// `SplitVec<T>` hold regardless of what the caller's iterators and elements do.
+    fn grow(&mut self, fill: impl FnOnce(&mut Vec<T>)) {
+        struct Counted<'a, T> {
+            target: &'a mut SplitVec<T>,
+            before: usize,
+        }
+
+        impl<T> Drop for Counted<'_, T> {
+            fn drop(&mut self) {
+                let added = self.target.buffer.len() - self.before;
+                unsafe { self.target.increment(added) }
+            }
+        }
+
+        let counted = Counted {
+            before: self.buffer.len(),
+            target: self,
+        };
+        fill(&mut counted.target.buffer)
+    }
+
     /// Wrapper around `Vec::push` that appends to the current span.
     ///
     /// If the current span was previously uninitialized, it is pre-populated with `0`
@@ -572,10 +596,7 @@ impl<T> SplitVec<T> {
     /// assert!(sv.is_contiguous());
     /// ```
     pub fn extend_current(&mut self, iter: impl IntoIterator<Item = T>) {
-        let l_before = self.buffer.len();
-        self.buffer.extend(iter);
-        let l_after = self.buffer.len();
-        unsafe { self.increment(l_after - l_before) }
+        self.grow(|buffer| buffer.extend(iter))
     }
 
     /// Wrapper around [`Vec::extend_from_slice`][vefs] that appends to the current span
@@ -602,9 +623,7 @@ impl<T> SplitVec<T> {
     where
         T: Clone,
     {
-        let l = other.len();
-        self.buffer.extend_from_slice(other);
-        unsafe { self.increment(l) }
+        self.grow(|buffer| buffer.extend_from_slice(other))
     }
 
     /// Wrapper around [`Vec::append`][vecappend] that appends to the current span
-- 
2.43.0

