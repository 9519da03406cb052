From a8bf18862dffd5a12731b00a769f41fe2511de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 1/4] fix: don't leave replace_range half done when the logger
 panics

With the logs feature self.len() calls the logger. It ran after the bytes were
moved and before the size was updated, so a panicking logger left the old size
over the new bytes: invalid UTF-8 reachable from safe code.
---
 src/arraystring.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arraystring.rs b/src/arraystring.rs
index e3d96ae..fd6f6cd 100644
--- a/src/arraystring.rs
+++ b/src/arraystring.rs
@@ -870,7 +870,8 @@ where
         is_char_boundary(self, start)?;
         is_char_boundary(self, end)?;
         // Will never overflow since start < end and str.len() cannot be bigger than 255
-        is_inside_boundary(self.len() + str.len() + start - end, Self::capacity())?;
+        let size = self.len() + str.len() + start - end;
+        is_inside_boundary(size, Self::capacity())?;
 
         let ptr = self.array.as_mut_ptr();
         // Safety: we ensure that `start <= end <= self.len()`
@@ -887,7 +888,8 @@ where
                 core::ptr::copy_nonoverlapping(str.as_ptr(), cut_start, str.len());
             }
         }
-        self.size = (self.len() + str.len() + start - end).into_lossy();
+        // Nothing may run caller code (like a panicking logger) between the copies and this
+        self.size = size.into_lossy();
         Ok(())
     }
 }
-- 
2.43.0


From d333152d33497cc914dfa1e5c191e616f67e2477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 2/4] fix: validate the range even when replacing nothing with
 nothing

replace_range returned Ok before checking its range when the range and the text
were both empty, so try_insert_str(idx, ""), insert_str_truncate on a full
string and replace_range(90..90, "") accepted indexes that are out of bounds or
inside a char instead of the documented OutOfBounds/Utf8.
---
 src/arraystring.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arraystring.rs b/src/arraystring.rs
index fd6f6cd..ac6b62d 100644
--- a/src/arraystring.rs
+++ b/src/arraystring.rs
@@ -861,14 +861,14 @@ where
             with.as_ref().len(),
             with.as_ref()
         );
-        if start == end && str.is_empty() {
-            return Ok(());
-        }
         is_inside_boundary(start, end)?;
         is_inside_boundary(end, self.len())?;
         is_inside_boundary(str.len(), Self::capacity())?;
         is_char_boundary(self, start)?;
         is_char_boundary(self, end)?;
+        if start == end && str.is_empty() {
+            return Ok(());
+        }
         // Will never overflow since start < end and str.len() cannot be bigger than 255
         let size = self.len() + str.len() + start - end;
         is_inside_boundary(size, Self::capacity())?;
-- 
2.43.0


From 0c96f003e0badd37b64c8e08b074a7b93bb43b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 3/4] fix: deserialize any string serde delivers, not just
 borrowed ones

Deserialize went through <&str>, so every text that needs unescaping and every
text read from a stream (serde_json::from_reader) was refused, although the docs
promise it operates like String but truncating. A serialized string holding a
quote could not be read back.
---
 src/integration.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/integration.rs b/src/integration.rs
index 9e1b32f..229c986 100644
--- a/src/integration.rs
+++ b/src/integration.rs
@@ -78,10 +78,36 @@ mod diesel_impl {
 #[cfg(feature = "serde-traits")]
 mod serde_impl {
     pub use crate::{arraystring::sealed::ValidCapacity, prelude::*};
+    use core::{fmt, str};
     #[cfg(all(feature = "no-panic", not(debug_assertions)))]
     use no_panic::no_panic;
+    use serde::de::{Error, Unexpected, Visitor};
     pub use serde::{de::Deserializer, ser::Serializer, Deserialize, Serialize};
 
+    /// Accepts text however the format delivers it (borrowed, transient or owned), like `String`
+    struct TruncateVisitor<const N: usize>;
+
+    impl<'a, const N: usize> Visitor<'a> for TruncateVisitor<N>
+    where
+        ArrayString<N>: ValidCapacity,
+    {
+        type Value = ArrayString<N>;
+
+        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
+            f.write_str("a string")
+        }
+
+        fn visit_str<E: Error>(self, v: &str) -> Result<Self::Value, E> {
+            Ok(ArrayString::from_str_truncate(v))
+        }
+
+        fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
+            str::from_utf8(v)
+                .map(ArrayString::from_str_truncate)
+                .map_err(|_| Error::invalid_value(Unexpected::Bytes(v), &self))
+        }
+    }
+
     impl<const N: usize> Serialize for ArrayString<N>
     where
         Self: ValidCapacity,
@@ -100,7 +126,7 @@ mod serde_impl {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
         fn deserialize<D: Deserializer<'a>>(des: D) -> Result<Self, D::Error> {
-            <&str>::deserialize(des).map(Self::from_str_truncate)
+            des.deserialize_str(TruncateVisitor)
         }
     }
 
-- 
2.43.0


From 44bb2439a287ffdb32bd04ae5a6a1a72946500fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 4/4] fix: don't read a database value after it was freed

Through diesel's *const str, a blob or text that isn't UTF-8 is converted into
a buffer owned by the value, which is dropped before the text is copied.
---
 src/integration.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/integration.rs b/src/integration.rs
index 229c986..a32759e 100644
--- a/src/integration.rs
+++ b/src/integration.rs
@@ -8,6 +8,9 @@ mod diesel_impl {
 
     pub use crate::{arraystring::sealed::ValidCapacity, prelude::*};
 
+    extern crate alloc;
+    use alloc::string::String;
+
     #[cfg(feature = "std")]
     pub use std::io::Write;
 
@@ -24,16 +27,16 @@ mod diesel_impl {
     impl<const N: usize, ST, DB> FromSql<ST, DB> for ArrayString<N>
     where
         DB: Backend,
-        *const str: FromSql<ST, DB>,
+        String: FromSql<ST, DB>,
         Self: ValidCapacity,
     {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
         fn from_sql(bytes: RawValue<'_, DB>) -> deserialize::Result<Self> {
-            let ptr = <*const str as FromSql<ST, DB>>::from_sql(bytes)?;
-            // Safety: We know that the pointer impl will never return null. We copied diesel's implementation for String
-            debug_assert!(!ptr.is_null());
-            Ok(Self::from_str_truncate(unsafe { &*ptr }))
+            // The pointer diesel's `*const str` gives may dangle: the value it points into is already
+            // gone when the text had to be converted first (a blob, text that isn't UTF-8)
+            let s: String = FromSql::from_sql(bytes)?;
+            Ok(Self::from_str_truncate(s))
         }
     }
     impl<const N: usize, DB> ToSql<Text, DB> for ArrayString<N>
@@ -52,7 +55,7 @@ mod diesel_impl {
     impl<ST, DB> FromSql<ST, DB> for CacheString
     where
         DB: Backend,
-        *const str: FromSql<ST, DB>,
+        String: FromSql<ST, DB>,
     {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
-- 
2.43.0

