From c87164acb95548cfbd3d3de3418fa523c1c2e68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 01/14] fix: decode U256/I256 values that are followed by more
 bytes

---
 scale-decode/src/visitor/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 52af01a..2f59c9b 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -215,9 +215,9 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
             data: &mut &'scale [u8],
         ) -> Result<&'scale [u8; 32], DecodeError> {
             // Pull an array from the data if we can, preserving the lifetime.
-            let arr: &'scale [u8; 32] = match (*data).try_into() {
-                Ok(arr) => arr,
-                Err(_) => return Err(DecodeError::NotEnoughInput),
+            let arr: &'scale [u8; 32] = match data.get(..32).and_then(|b| b.try_into().ok()) {
+                Some(arr) => arr,
+                None => return Err(DecodeError::NotEnoughInput),
             };
             // If we successfully read the bytes, then advance the pointer past them.
             *data = &data[32..];
-- 
2.43.0


From 3411b2d9866c6b7e1236cc91d2de770bcc5856a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 02/14] fix: Tuple::remaining() counts only the items not
 decoded yet

---
 scale-decode/src/visitor/types/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 3faaaec..e11228b 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -58,7 +58,7 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
     }
     /// The number of un-decoded items remaining in the tuple.
     pub fn remaining(&self) -> usize {
-        self.fields.len()
+        self.fields.len() - self.next_field_idx
     }
     /// Decode the next item from the tuple by providing a visitor to handle it.
     pub fn decode_item<V: Visitor<TypeResolver = R>>(
-- 
2.43.0


From 44ef152eae99c0bed1f0793ad65cdefe033b8c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 03/14] fix: decode compact tuple fields as compact when
 visiting them later

---
 scale-decode/src/visitor/types/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index e11228b..25abb0d 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -143,11 +143,12 @@ impl<'scale, 'resolver, R: TypeResolver> TupleField<'scale, 'resolver, R> {
         &self,
         visitor: V,
     ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
-        crate::visitor::decode_with_visitor(
+        crate::visitor::decode_with_visitor_maybe_compact(
             &mut &*self.bytes,
             self.type_id.clone(),
             self.types,
             visitor,
+            self.is_compact,
         )
     }
     /// Decode this field into a specific type via [`DecodeAsType`].
-- 
2.43.0


From 51937343eeffa9b3e630b9b5fc858d84737b979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 04/14] fix: Composite::as_tuple() contains only the remaining
 fields

---
 scale-decode/src/visitor/types/composite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index e195c87..a1727c3 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -86,7 +86,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     pub fn as_tuple(&self) -> super::Tuple<'scale, 'resolver, R> {
         super::Tuple::new(
             self.item_bytes,
-            &mut self.fields.iter().cloned(),
+            &mut self.fields[self.next_field_idx..].iter().cloned(),
             self.types,
             self.is_compact,
         )
-- 
2.43.0


From 0092f8a0e6ec94c2d681097b1964593cdb0bef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 05/14] fix: skip what is left of a composite or tuple after
 one of its fields was rejected

---
 scale-decode/src/visitor/types/composite.rs | 31 ++++++++++++++++++---
 scale-decode/src/visitor/types/tuple.rs     | 25 +++++++++++++++--
 2 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index a1727c3..c41ac39 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -26,6 +26,9 @@ pub struct Composite<'scale, 'resolver, R: TypeResolver> {
     fields: smallvec::SmallVec<[Field<'resolver, R::TypeId>; 16]>,
     path: smallvec::SmallVec<[&'resolver str; 5]>,
     next_field_idx: usize,
+    // Set if decoding the field at `next_field_idx` failed. No more items are handed out
+    // after that, but we can still skip over the undecoded bytes.
+    failed: bool,
     types: &'resolver R,
     is_compact: bool,
 }
@@ -42,7 +45,16 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     ) -> Composite<'scale, 'resolver, R> {
         let path = smallvec::SmallVec::from_iter(path);
         let fields = smallvec::SmallVec::from_iter(fields);
-        Composite { path, bytes, item_bytes: bytes, fields, types, next_field_idx: 0, is_compact }
+        Composite {
+            path,
+            bytes,
+            item_bytes: bytes,
+            fields,
+            types,
+            next_field_idx: 0,
+            failed: false,
+            is_compact,
+        }
     }
     /// Return the name of the composite type, if one was given.
     pub fn name(&self) -> Option<&'resolver str> {
@@ -55,6 +67,8 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     /// Skip over all bytes associated with this composite type. After calling this,
     /// [`Self::bytes_from_undecoded()`] will represent the bytes after this composite type.
     pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
+        // If decoding a field failed, then we still need to skip over it and what follows it.
+        self.failed = false;
         while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
             res?;
         }
@@ -71,6 +85,9 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     }
     /// The number of un-decoded items remaining in this composite type.
     pub fn remaining(&self) -> usize {
+        if self.failed {
+            return 0;
+        }
         self.fields.len() - self.next_field_idx
     }
     /// All of the fields present in this composite type.
@@ -86,7 +103,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     pub fn as_tuple(&self) -> super::Tuple<'scale, 'resolver, R> {
         super::Tuple::new(
             self.item_bytes,
-            &mut self.fields[self.next_field_idx..].iter().cloned(),
+            &mut self.fields[self.fields.len() - self.remaining()..].iter().cloned(),
             self.types,
             self.is_compact,
         )
@@ -94,6 +111,9 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     /// Return the name of the next field to be decoded; `None` if either the field has no name,
     /// or there are no fields remaining.
     pub fn peek_name(&self) -> Option<&'resolver str> {
+        if self.failed {
+            return None;
+        }
         self.fields.get(self.next_field_idx).and_then(|f| f.name)
     }
     /// Decode the next field in the composite type by providing a visitor to handle it. This is more
@@ -103,6 +123,9 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
         &mut self,
         visitor: V,
     ) -> Option<Result<V::Value<'scale, 'resolver>, V::Error>> {
+        if self.failed {
+            return None;
+        }
         let field = self.fields.get(self.next_field_idx)?;
         let b = &mut &*self.item_bytes;
 
@@ -120,8 +143,8 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
             self.item_bytes = *b;
             self.next_field_idx += 1;
         } else {
-            // Otherwise, skip to end to prevent any future iterations:
-            self.next_field_idx = self.fields.len()
+            // Otherwise, prevent any future iterations:
+            self.failed = true;
         }
 
         Some(res)
diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 25abb0d..e4c47b0 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -25,6 +25,9 @@ pub struct Tuple<'scale, 'resolver, R: TypeResolver> {
     item_bytes: &'scale [u8],
     fields: smallvec::SmallVec<[Field<'resolver, R::TypeId>; 16]>,
     next_field_idx: usize,
+    // Set if decoding the field at `next_field_idx` failed. No more items are handed out
+    // after that, but we can still skip over the undecoded bytes.
+    failed: bool,
     types: &'resolver R,
     is_compact: bool,
 }
@@ -37,11 +40,21 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
         is_compact: bool,
     ) -> Tuple<'scale, 'resolver, R> {
         let fields = smallvec::SmallVec::from_iter(fields);
-        Tuple { bytes, item_bytes: bytes, fields, types, next_field_idx: 0, is_compact }
+        Tuple {
+            bytes,
+            item_bytes: bytes,
+            fields,
+            types,
+            next_field_idx: 0,
+            failed: false,
+            is_compact,
+        }
     }
     /// Skip over all bytes associated with this tuple. After calling this,
     /// [`Self::bytes_from_undecoded()`] will represent the bytes after this tuple.
     pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
+        // If decoding a field failed, then we still need to skip over it and what follows it.
+        self.failed = false;
         while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
             res?;
         }
@@ -58,6 +71,9 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
     }
     /// The number of un-decoded items remaining in the tuple.
     pub fn remaining(&self) -> usize {
+        if self.failed {
+            return 0;
+        }
         self.fields.len() - self.next_field_idx
     }
     /// Decode the next item from the tuple by providing a visitor to handle it.
@@ -65,6 +81,9 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
         &mut self,
         visitor: V,
     ) -> Option<Result<V::Value<'scale, 'resolver>, V::Error>> {
+        if self.failed {
+            return None;
+        }
         let field = self.fields.get(self.next_field_idx)?;
         let b = &mut &*self.item_bytes;
         // Decode the bytes:
@@ -81,8 +100,8 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
             self.item_bytes = *b;
             self.next_field_idx += 1;
         } else {
-            // Otherwise, skip to end to prevent any future iterations:
-            self.next_field_idx = self.fields.len()
+            // Otherwise, prevent any future iterations:
+            self.failed = true;
         }
 
         Some(res)
-- 
2.43.0


From 24cb0336682aeb39347e7d8eab1e9939a5164945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 06/14] fix: return the visitor's error rather than the error
 finding the end of a bit sequence

---
 scale-decode/src/visitor/decode.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 2f59c9b..08e281e 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -352,8 +352,16 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
         let res = self.visitor.visit_bitsequence(&mut bitseq, self.type_id);
 
         // Move to the bytes after the bit sequence.
-        *self.data = bitseq.bytes_after()?;
+        let bytes_after = bitseq.bytes_after();
+        if let Ok(bytes) = bytes_after {
+            *self.data = bytes;
+        }
 
-        res
+        // Prioritize returning visitor errors over errors finding the end of the bit sequence.
+        match (res, bytes_after) {
+            (Err(e), _) => Err(e),
+            (_, Err(e)) => Err(e.into()),
+            (Ok(v), _) => Ok(v),
+        }
     }
 }
-- 
2.43.0


From 2fee39a71b168c0f9f1bbe9215b98719eec30c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 07/14] fix: decode_as_fields returns the error decoding a
 field, not the one skipping the rest

---
 scale-decode-derive/src/lib.rs | 13 +++++++++----
 scale-decode/src/impls/mod.rs  | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 4d44700..6fa8611 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -325,11 +325,16 @@ fn generate_struct_impl(
                     use #path_to_scale_decode::{ Visitor, IntoVisitor };
                     let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, Default::default());
 
-                    // Consume any remaining bytes and update input:
-                    composite.skip_decoding()?;
-                    *input = composite.bytes_from_undecoded();
+                    // Consume any remaining bytes and update input, prioritizing the error decoding
+                    // the fields (if any) over an error skipping what's left of them:
+                    let skip_res = composite.skip_decoding();
+                    if skip_res.is_ok() {
+                        *input = composite.bytes_from_undecoded();
+                    }
+                    let val = val?;
+                    skip_res?;
 
-                    val.map_err(From::from)
+                    Ok(val)
                 }
             }
         };
diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 16ec900..092de6f 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -644,11 +644,16 @@ macro_rules! impl_decode_tuple {
                 // a bit hideous (and requires `TypeId: Default`). Can we re-work this to avoid?
                 let val = <($($t,)*)>::into_visitor().visit_composite(&mut composite, Default::default());
 
-                // Skip over bytes that we decoded:
-                composite.skip_decoding()?;
-                *input = composite.bytes_from_undecoded();
+                // Skip over bytes that we decoded, prioritizing the error decoding the fields (if
+                // any) over an error skipping what's left of them:
+                let skip_res = composite.skip_decoding();
+                if skip_res.is_ok() {
+                    *input = composite.bytes_from_undecoded();
+                }
+                let val = val?;
+                skip_res?;
 
-                val
+                Ok(val)
             }
         }
     }
-- 
2.43.0


From 05b5e79164b73c44ab8935c0b28ec36af5c5da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 08/14] fix: decoding a Duration that overflows is an error,
 not a panic

---
 scale-decode/src/impls/mod.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 092de6f..966249c 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -223,10 +223,32 @@ impl_into_visitor_like!(Compact<T> as T: |res| Compact(res));
 impl_into_visitor_like!(Arc<T> as T: |res| Arc::new(res));
 impl_into_visitor_like!(Rc<T> as T: |res| Rc::new(res));
 impl_into_visitor_like!(Box<T> as T: |res| Box::new(res));
-impl_into_visitor_like!(Duration as (u64, u32): |res: (u64,u32)| Duration::from_secs(res.0) + Duration::from_nanos(res.1 as u64));
 impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| res.0..res.1);
 impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| res.0..=res.1);
 
+// A custom implementation for `Duration` because not every pair of seconds and nanoseconds is valid.
+impl<R: TypeResolver> Visitor for BasicVisitor<Duration, R> {
+    type Value<'scale, 'resolver> = Duration;
+    type Error = Error;
+    type TypeResolver = R;
+
+    fn unchecked_decode_as_type<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+        types: &'resolver Self::TypeResolver,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        let inner_res = decode_with_visitor(input, type_id, types, <(u64, u32)>::into_visitor());
+        let res = inner_res.and_then(|(secs, nanos)| {
+            Duration::from_secs(secs)
+                .checked_add(Duration::from_nanos(nanos as u64))
+                .ok_or_else(|| Error::new(ErrorKind::NumberOutOfRange { value: secs.to_string() }))
+        });
+        DecodeAsTypeResult::Decoded(res)
+    }
+}
+impl_into_visitor!(Duration);
+
 // A custom implementation for `Cow` because it's rather tricky; the visitor we want is whatever the
 // `ToOwned` value for the Cow is, and Cow's have specific constraints, too.
 impl<'a, T, R> Visitor for BasicVisitor<Cow<'a, T>, R>
-- 
2.43.0


From a41d4194a637242a7832ed569497f128632bc67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 09/14] fix: list error locations from the outermost to the
 innermost

---
 scale-decode/src/error/context.rs | 5 +++++
 scale-decode/src/error/mod.rs     | 8 ++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/scale-decode/src/error/context.rs b/scale-decode/src/error/context.rs
index 5dbb440..1cd1181 100644
--- a/scale-decode/src/error/context.rs
+++ b/scale-decode/src/error/context.rs
@@ -35,6 +35,11 @@ impl Context {
     pub fn push(&mut self, loc: Location) {
         self.path.push(loc);
     }
+    /// Add a location in front of the current path. Errors are given context from
+    /// the inside out, so this is how to keep the outermost location first.
+    pub(crate) fn push_front(&mut self, loc: Location) {
+        self.path.insert(0, loc);
+    }
     /// Return the current path.
     pub fn path(&self) -> Path<'_> {
         Path(Cow::Borrowed(&self.path))
diff --git a/scale-decode/src/error/mod.rs b/scale-decode/src/error/mod.rs
index df0ba2e..8420766 100644
--- a/scale-decode/src/error/mod.rs
+++ b/scale-decode/src/error/mod.rs
@@ -66,22 +66,22 @@ impl Error {
     }
     /// Give some context to the error.
     pub fn at(mut self, loc: Location) -> Self {
-        self.context.push(loc);
+        self.context.push_front(loc);
         Error { context: self.context, kind: self.kind }
     }
     /// Note which sequence index the error occurred in.
     pub fn at_idx(mut self, idx: usize) -> Self {
-        self.context.push(Location::idx(idx));
+        self.context.push_front(Location::idx(idx));
         Error { context: self.context, kind: self.kind }
     }
     /// Note which field the error occurred in.
     pub fn at_field(mut self, field: impl Into<Cow<'static, str>>) -> Self {
-        self.context.push(Location::field(field));
+        self.context.push_front(Location::field(field));
         Error { context: self.context, kind: self.kind }
     }
     /// Note which variant the error occurred in.
     pub fn at_variant(mut self, variant: impl Into<Cow<'static, str>>) -> Self {
-        self.context.push(Location::variant(variant));
+        self.context.push_front(Location::variant(variant));
         Error { context: self.context, kind: self.kind }
     }
 }
-- 
2.43.0


From 3bd1d973b3b071906f5b8885487997458b761f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 10/14] fix: keep decoding compact values as compact through
 wrapper types

A Box, Arc, Cow, one-tuple, hash or similar as the single field of a compact encoded
composite decoded its inner value as if it wasn't compact encoded.
---
 scale-decode/src/impls/mod.rs             | 70 +++++++++++++++++++++--
 scale-decode/src/impls/primitive_types.rs | 18 +++++-
 scale-decode/src/visitor/decode.rs        |  7 ++-
 scale-decode/src/visitor/mod.rs           | 27 ++++++++-
 4 files changed, 112 insertions(+), 10 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 966249c..4575ec4 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -19,7 +19,8 @@ mod primitive_types;
 use crate::{
     error::{Error, ErrorKind},
     visitor::{
-        self, decode_with_visitor, types::*, DecodeAsTypeResult, DecodeItemIterator, Visitor,
+        self, decode_with_visitor_maybe_compact, types::*, DecodeAsTypeResult, DecodeItemIterator,
+        Visitor,
     },
     DecodeAsFields, FieldIter, IntoVisitor,
 };
@@ -207,9 +208,19 @@ macro_rules! impl_into_visitor_like {
                 input: &mut &'scale [u8],
                 type_id: <Self::TypeResolver as TypeResolver>::TypeId,
                 types: &'resolver Self::TypeResolver,
+            ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
             ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
                 // Use the source visitor to decode into some type:
-                let inner_res = decode_with_visitor(input, type_id, types, <$source>::into_visitor());
+                let inner_res = decode_with_visitor_maybe_compact(input, type_id, types, <$source>::into_visitor(), is_compact);
                 // map this type into our desired output and return it:
                 let res = inner_res.map($mapper);
                 DecodeAsTypeResult::Decoded(res)
@@ -238,7 +249,23 @@ impl<R: TypeResolver> Visitor for BasicVisitor<Duration, R> {
         type_id: <Self::TypeResolver as TypeResolver>::TypeId,
         types: &'resolver Self::TypeResolver,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
-        let inner_res = decode_with_visitor(input, type_id, types, <(u64, u32)>::into_visitor());
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        let inner_res = decode_with_visitor_maybe_compact(
+            input,
+            type_id,
+            types,
+            <(u64, u32)>::into_visitor(),
+            is_compact,
+        );
         let res = inner_res.and_then(|(secs, nanos)| {
             Duration::from_secs(secs)
                 .checked_add(Duration::from_nanos(nanos as u64))
@@ -266,10 +293,25 @@ where
         input: &mut &'scale [u8],
         type_id: <Self::TypeResolver as TypeResolver>::TypeId,
         types: &'resolver Self::TypeResolver,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
         // Use the ToOwned visitor to decode into some type:
-        let inner_res =
-            decode_with_visitor(input, type_id, types, <<T as ToOwned>::Owned>::into_visitor());
+        let inner_res = decode_with_visitor_maybe_compact(
+            input,
+            type_id,
+            types,
+            <<T as ToOwned>::Owned>::into_visitor(),
+            is_compact,
+        );
         // map this type into our owned Cow to return:
         let res = inner_res.map(Cow::Owned);
         DecodeAsTypeResult::Decoded(res)
@@ -576,6 +618,16 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             input: &mut &'scale [u8],
             type_id: <Self::TypeResolver as TypeResolver>::TypeId,
             types: &'resolver Self::TypeResolver,
+        ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+            self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+        }
+
+        fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+            self,
+            input: &mut &'scale [u8],
+            type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+            types: &'resolver Self::TypeResolver,
+            is_compact: bool,
         ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
             use scale_type_resolver::{ResolvedTypeVisitor, UnhandledKind};
 
@@ -605,7 +657,13 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             }
 
             // Else, try to decode as the inner type.
-            let inner_res = decode_with_visitor(input, type_id, types, <$t>::into_visitor());
+            let inner_res = decode_with_visitor_maybe_compact(
+                input,
+                type_id,
+                types,
+                <$t>::into_visitor(),
+                is_compact,
+            );
             let res = inner_res.map(|val| (val,)).map_err(|e| e.into());
             DecodeAsTypeResult::Decoded(res)
         }
diff --git a/scale-decode/src/impls/primitive_types.rs b/scale-decode/src/impls/primitive_types.rs
index ff788f1..bd29940 100644
--- a/scale-decode/src/impls/primitive_types.rs
+++ b/scale-decode/src/impls/primitive_types.rs
@@ -16,7 +16,7 @@
 use super::BasicVisitor;
 use crate::{
     error::Error,
-    visitor::{decode_with_visitor, DecodeAsTypeResult, Visitor},
+    visitor::{decode_with_visitor_maybe_compact, DecodeAsTypeResult, Visitor},
     IntoVisitor,
 };
 use primitive_types::{H128, H160, H256, H384, H512, H768};
@@ -38,11 +38,25 @@ macro_rules! impl_visitor {
                 Self,
                 Result<Self::Value<'scale, 'resolver>, Self::Error>,
             > {
-                let res = decode_with_visitor(
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
+            ) -> crate::visitor::DecodeAsTypeResult<
+                Self,
+                Result<Self::Value<'scale, 'resolver>, Self::Error>,
+            > {
+                let res = decode_with_visitor_maybe_compact(
                     input,
                     type_id,
                     types,
                     BasicVisitor::<[u8; $len / 8], R> { _marker: core::marker::PhantomData },
+                    is_compact,
                 )
                 .map(|res| <$ty>::from(res));
                 DecodeAsTypeResult::Decoded(res)
diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 08e281e..a251be4 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -46,7 +46,12 @@ pub fn decode_with_visitor_maybe_compact<'scale, 'resolver, V: Visitor>(
     is_compact: bool,
 ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
     // Provide option to "bail out" and do something custom first.
-    let visitor = match visitor.unchecked_decode_as_type(data, ty_id.clone(), types) {
+    let visitor = match visitor.unchecked_decode_as_type_maybe_compact(
+        data,
+        ty_id.clone(),
+        types,
+        is_compact,
+    ) {
         DecodeAsTypeResult::Decoded(r) => return r,
         DecodeAsTypeResult::Skipped(v) => v,
     };
diff --git a/scale-decode/src/visitor/mod.rs b/scale-decode/src/visitor/mod.rs
index f1bfc19..3272fbe 100644
--- a/scale-decode/src/visitor/mod.rs
+++ b/scale-decode/src/visitor/mod.rs
@@ -60,6 +60,20 @@ pub trait Visitor: Sized {
         DecodeAsTypeResult::Skipped(self)
     }
 
+    /// As [`Visitor::unchecked_decode_as_type()`], but also told whether the value is compact encoded (which
+    /// it can be if it's the single field in some compact encoded composite or tuple). Visitors which hand over
+    /// to some other visitor need to pass this on.
+    #[doc(hidden)]
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        _is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type(input, type_id, types)
+    }
+
     /// This is called when a visitor function that you've not provided an implementation is called.
     /// You are provided an enum value corresponding to the function call, and can decide what to return
     /// in this case. The default is to return an error to announce the unexpected value.
@@ -420,7 +434,18 @@ where
         type_id: TypeIdFor<Self>,
         types: &'resolver Self::TypeResolver,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
-        let res = decode_with_visitor(input, type_id, types, self.0).map_err(Into::into);
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        let res = decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)
+            .map_err(Into::into);
         DecodeAsTypeResult::Decoded(res)
     }
 }
-- 
2.43.0


From 28a8a9a9efdcaf539ed8e25f798156957a524de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 11/14] fix: skip fields marked with skip whatever other
 attributes they have

---
 scale-decode-derive/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 6fa8611..6bed2c6 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -347,10 +347,9 @@ fn named_field_keyvals<'f>(
     fields: &'f syn::FieldsNamed,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f, impl Iterator<Item = TokenStream2> + 'f) {
     let field_keyval_impls = fields.named.iter().map(move |f| {
-        let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
         let field_ident = f.ident.as_ref().expect("named field has ident");
         let field_name = field_ident.to_string();
-        let skip_field = field_attrs.skip;
+        let skip_field = should_skip(&f.attrs);
 
         // If a field is skipped, we expect it to have a Default impl to use to populate it instead.
         if skip_field {
@@ -394,8 +393,7 @@ fn unnamed_field_vals<'f>(
     fields: &'f syn::FieldsUnnamed,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f) {
     let field_val_impls = fields.unnamed.iter().enumerate().map(|(idx, f)| {
-        let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
-        let skip_field = field_attrs.skip;
+        let skip_field = should_skip(&f.attrs);
 
         // If a field is skipped, we expect it to have a Default impl to use to populate it instead.
         if skip_field {
@@ -564,9 +562,17 @@ impl TopLevelAttrs {
     }
 }
 
+/// Has the field been marked with `#[decode_as_type(skip)]` or `#[codec(skip)]`? Each attribute is looked at
+/// by itself, so that neither giving both nor other `codec` attributes stop us from noticing this.
+fn should_skip(attrs: &[syn::Attribute]) -> bool {
+    attrs.iter().any(|attr| {
+        FieldAttrs::from_attributes(core::slice::from_ref(attr)).unwrap_or_default().skip
+    })
+}
+
 /// Parse the attributes attached to some field
 #[derive(Debug, FromAttributes, Default)]
-#[darling(attributes(decode_as_type, codec))]
+#[darling(attributes(decode_as_type, codec), allow_unknown_fields)]
 struct FieldAttrs {
     #[darling(default)]
     skip: bool,
-- 
2.43.0


From 221ef70f68415e1b8898c2080eb6250b2032443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 12/14] fix: report a failure to resolve the type a 1-tuple is
 decoded from

The failure was ignored and the value then decoded as if the type was a
composite or tuple, which could lead to a different value if resolving
the type worked the next time.
---
 scale-decode/src/impls/mod.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 4575ec4..e0e54b8 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -19,8 +19,8 @@ mod primitive_types;
 use crate::{
     error::{Error, ErrorKind},
     visitor::{
-        self, decode_with_visitor_maybe_compact, types::*, DecodeAsTypeResult, DecodeItemIterator,
-        Visitor,
+        self, decode_with_visitor_maybe_compact, types::*, DecodeAsTypeResult, DecodeError,
+        DecodeItemIterator, Visitor,
     },
     DecodeAsFields, FieldIter, IntoVisitor,
 };
@@ -28,6 +28,7 @@ use alloc::{
     borrow::{Cow, ToOwned},
     boxed::Box,
     collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque},
+    format,
     rc::Rc,
     string::{String, ToString},
     sync::Arc,
@@ -632,28 +633,36 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             use scale_type_resolver::{ResolvedTypeVisitor, UnhandledKind};
 
             // Match on the resolved kind; try to decode as inner type if it's not a
-            // composite, tuple, or a type ID we can't find. Else fall back to default.
+            // composite or tuple. Else fall back to default.
             struct TryDecodeAsInner<TypeId>(PhantomData<TypeId>);
             impl<'resolver, TypeId: scale_type_resolver::TypeId + 'static>
                 ResolvedTypeVisitor<'resolver> for TryDecodeAsInner<TypeId>
             {
                 type TypeId = TypeId;
-                type Value = bool;
+                type Value = Option<bool>;
                 fn visit_unhandled(self, kind: UnhandledKind) -> Self::Value {
                     match kind {
-                        UnhandledKind::Composite
-                        | UnhandledKind::Tuple
-                        | UnhandledKind::NotFound => false,
-                        _ => true,
+                        UnhandledKind::NotFound => None,
+                        UnhandledKind::Composite | UnhandledKind::Tuple => Some(false),
+                        _ => Some(true),
                     }
                 }
             }
 
-            // If error decoding, or false, just fall back to default behaviour and don't try to decode as inner.
-            if let Err(_) | Ok(false) =
-                types.resolve_type(type_id.clone(), TryDecodeAsInner(PhantomData))
-            {
-                return DecodeAsTypeResult::Skipped(self);
+            match types.resolve_type(type_id.clone(), TryDecodeAsInner(PhantomData)) {
+                Ok(Some(true)) => {}
+                // If false, just fall back to default behaviour and don't try to decode as inner.
+                Ok(Some(false)) => return DecodeAsTypeResult::Skipped(self),
+                // If we can't resolve the type then say so; guessing how to decode it may lead to
+                // a different value.
+                Ok(None) => {
+                    let err = DecodeError::TypeIdNotFound(format!("{type_id:?}"));
+                    return DecodeAsTypeResult::Decoded(Err(err.into()));
+                }
+                Err(e) => {
+                    let err = DecodeError::TypeResolvingError(e.to_string());
+                    return DecodeAsTypeResult::Decoded(Err(err.into()));
+                }
             }
 
             // Else, try to decode as the inner type.
-- 
2.43.0


From 4ac6e709264f703a73e84d127c51228c60119f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 13/14] fix: refuse sequence lengths that don't fit into a
 usize

On 32 bit targets the u64 length was truncated, so that 2^32+1 items became 1.
---
 scale-decode/src/visitor/types/sequence.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/sequence.rs b/scale-decode/src/visitor/types/sequence.rs
index b9ada17..ba414cc 100644
--- a/scale-decode/src/visitor/types/sequence.rs
+++ b/scale-decode/src/visitor/types/sequence.rs
@@ -39,7 +39,9 @@ impl<'scale, 'resolver, R: TypeResolver> Sequence<'scale, 'resolver, R> {
         // Sequences are prefixed with their length in bytes. Make a note of this,
         // as well as the number of bytes
         let item_bytes = &mut &*bytes;
-        let len = <Compact<u64>>::decode(item_bytes)?.0 as usize;
+        let len = <Compact<u64>>::decode(item_bytes)?.0;
+        // If the length doesn't fit into a usize, we can't have been given that many items.
+        let len = usize::try_from(len).map_err(|_| DecodeError::NotEnoughInput)?;
 
         Ok(Sequence { bytes, values: Array::new(item_bytes, type_id, len, types) })
     }
-- 
2.43.0


From 063a9771c4c59494b9dab931535f1b7faacecf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 14/14] fix: don't overflow when working out where a string
 ends

On 32 bit targets a claimed length near 2^32 overflowed once the length of the prefix was added, which panics
or, without overflow checks, accepts the string and leaves the input in the wrong place.
---
 scale-decode/src/visitor/types/str.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scale-decode/src/visitor/types/str.rs b/scale-decode/src/visitor/types/str.rs
index f8d788c..3196722 100644
--- a/scale-decode/src/visitor/types/str.rs
+++ b/scale-decode/src/visitor/types/str.rs
@@ -47,7 +47,7 @@ impl<'scale> Str<'scale> {
     }
     /// The bytes remaining in the input after this string.
     pub fn bytes_after(&self) -> Result<&'scale [u8], DecodeError> {
-        self.bytes.get(self.compact_len + self.len..).ok_or(DecodeError::NotEnoughInput)
+        self.bytes.get(self.end()?..).ok_or(DecodeError::NotEnoughInput)
     }
     /// Is the string zero bytes long?
     pub fn is_empty(&self) -> bool {
@@ -56,8 +56,13 @@ impl<'scale> Str<'scale> {
     /// return a string, failing if the bytes could not be properly utf8-decoded.
     pub fn as_str(&self) -> Result<&'scale str, DecodeError> {
         let start = self.compact_len;
-        let end = start + self.len;
+        let end = self.end()?;
         alloc::str::from_utf8(self.bytes.get(start..end).ok_or(DecodeError::NotEnoughInput)?)
             .map_err(DecodeError::InvalidStr)
     }
+    // Where the string ends. On 32 bit targets this may not fit into a usize, in which case
+    // we can't have been given that many bytes.
+    fn end(&self) -> Result<usize, DecodeError> {
+        self.compact_len.checked_add(self.len).ok_or(DecodeError::NotEnoughInput)
+    }
 }
-- 
2.43.0

