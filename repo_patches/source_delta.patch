From 35f8576b884faba1c957996b87475c7b94d40b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:10 +0000
Subject: [PATCH 01/22] fix: decode 256 bit integers which are followed by more
 bytes

---
 scale-decode/src/visitor/decode.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 52af01a..5803145 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -215,12 +215,9 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
             data: &mut &'scale [u8],
         ) -> Result<&'scale [u8; 32], DecodeError> {
             // Pull an array from the data if we can, preserving the lifetime.
-            let arr: &'scale [u8; 32] = match (*data).try_into() {
-                Ok(arr) => arr,
-                Err(_) => return Err(DecodeError::NotEnoughInput),
-            };
+            let (arr, rest) = data.split_first_chunk::<32>().ok_or(DecodeError::NotEnoughInput)?;
             // If we successfully read the bytes, then advance the pointer past them.
-            *data = &data[32..];
+            *data = rest;
             Ok(arr)
         }
 
-- 
2.43.0


From 9a0a3ae47fcae6291efbb64655fcdd7c9e13d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:10 +0000
Subject: [PATCH 02/22] fix: Tuple::remaining counts only the items not decoded
 yet

---
 scale-decode/src/visitor/types/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 3faaaec..e11228b 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -58,7 +58,7 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
     }
     /// The number of un-decoded items remaining in the tuple.
     pub fn remaining(&self) -> usize {
-        self.fields.len()
+        self.fields.len() - self.next_field_idx
     }
     /// Decode the next item from the tuple by providing a visitor to handle it.
     pub fn decode_item<V: Visitor<TypeResolver = R>>(
-- 
2.43.0


From 409c6b4dd5321d3d04d6c29b9b41608df9407c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:10 +0000
Subject: [PATCH 03/22] fix: TupleField::decode_with_visitor handles compact
 encoded fields

---
 scale-decode/src/visitor/types/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index e11228b..25abb0d 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -143,11 +143,12 @@ impl<'scale, 'resolver, R: TypeResolver> TupleField<'scale, 'resolver, R> {
         &self,
         visitor: V,
     ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
-        crate::visitor::decode_with_visitor(
+        crate::visitor::decode_with_visitor_maybe_compact(
             &mut &*self.bytes,
             self.type_id.clone(),
             self.types,
             visitor,
+            self.is_compact,
         )
     }
     /// Decode this field into a specific type via [`DecodeAsType`].
-- 
2.43.0


From cb63f4a955b41cf13a0862826507e03f0fde231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:10 +0000
Subject: [PATCH 04/22] fix: Composite::as_tuple leaves out the fields already
 decoded

---
 scale-decode/src/visitor/types/composite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index e195c87..a1727c3 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -86,7 +86,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     pub fn as_tuple(&self) -> super::Tuple<'scale, 'resolver, R> {
         super::Tuple::new(
             self.item_bytes,
-            &mut self.fields.iter().cloned(),
+            &mut self.fields[self.next_field_idx..].iter().cloned(),
             self.types,
             self.is_compact,
         )
-- 
2.43.0


From 41dd66fa587fac7666b35b318401f9bcd78bfac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:33 +0000
Subject: [PATCH 05/22] fix: report a Duration which overflows as an error
 instead of panicking

---
 scale-decode/src/impls/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 16ec900..8b3c5da 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -211,7 +211,7 @@ macro_rules! impl_into_visitor_like {
                 // Use the source visitor to decode into some type:
                 let inner_res = decode_with_visitor(input, type_id, types, <$source>::into_visitor());
                 // map this type into our desired output and return it:
-                let res = inner_res.map($mapper);
+                let res = inner_res.and_then($mapper);
                 DecodeAsTypeResult::Decoded(res)
             }
         }
@@ -219,13 +219,17 @@ macro_rules! impl_into_visitor_like {
     }
 }
 
-impl_into_visitor_like!(Compact<T> as T: |res| Compact(res));
-impl_into_visitor_like!(Arc<T> as T: |res| Arc::new(res));
-impl_into_visitor_like!(Rc<T> as T: |res| Rc::new(res));
-impl_into_visitor_like!(Box<T> as T: |res| Box::new(res));
-impl_into_visitor_like!(Duration as (u64, u32): |res: (u64,u32)| Duration::from_secs(res.0) + Duration::from_nanos(res.1 as u64));
-impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| res.0..res.1);
-impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| res.0..=res.1);
+impl_into_visitor_like!(Compact<T> as T: |res| Ok(Compact(res)));
+impl_into_visitor_like!(Arc<T> as T: |res| Ok(Arc::new(res)));
+impl_into_visitor_like!(Rc<T> as T: |res| Ok(Rc::new(res)));
+impl_into_visitor_like!(Box<T> as T: |res| Ok(Box::new(res)));
+impl_into_visitor_like!(Duration as (u64, u32): |res: (u64,u32)| {
+    Duration::from_secs(res.0)
+        .checked_add(Duration::from_nanos(res.1 as u64))
+        .ok_or_else(|| Error::new(ErrorKind::NumberOutOfRange { value: res.0.to_string() }))
+});
+impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| Ok(res.0..res.1));
+impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| Ok(res.0..=res.1));
 
 // A custom implementation for `Cow` because it's rather tricky; the visitor we want is whatever the
 // `ToOwned` value for the Cow is, and Cow's have specific constraints, too.
-- 
2.43.0


From 86c722a7784efa77afb7372c0cd84a9206e93f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 06/22] fix: don't hide visitor errors behind an error skipping
 a bit sequence

---
 scale-decode/src/visitor/decode.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 5803145..42d0ed3 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -348,9 +348,10 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
         let mut bitseq = BitSequence::new(format, self.data);
         let res = self.visitor.visit_bitsequence(&mut bitseq, self.type_id);
 
-        // Move to the bytes after the bit sequence.
+        // Move to the bytes after the bit sequence, but prioritize returning visitor errors.
+        let val = res?;
         *self.data = bitseq.bytes_after()?;
 
-        res
+        Ok(val)
     }
 }
-- 
2.43.0


From ce31671a8388c09efb4460290ee57f49e6abf941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 07/22] fix: decode_as_fields doesn't hide visitor errors
 behind skipping errors

---
 scale-decode-derive/src/lib.rs | 11 ++++++++---
 scale-decode/src/impls/mod.rs  | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 4d44700..6a82174 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -326,10 +326,15 @@ fn generate_struct_impl(
                     let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, Default::default());
 
                     // Consume any remaining bytes and update input:
-                    composite.skip_decoding()?;
-                    *input = composite.bytes_from_undecoded();
+                    let skip_res = composite.skip_decoding();
+                    if skip_res.is_ok() {
+                        *input = composite.bytes_from_undecoded();
+                    }
 
-                    val.map_err(From::from)
+                    // Prioritize returning visitor errors over skip_decoding errors.
+                    let val = val?;
+                    skip_res?;
+                    Ok(val)
                 }
             }
         };
diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 8b3c5da..0e4a913 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -649,10 +649,15 @@ macro_rules! impl_decode_tuple {
                 let val = <($($t,)*)>::into_visitor().visit_composite(&mut composite, Default::default());
 
                 // Skip over bytes that we decoded:
-                composite.skip_decoding()?;
-                *input = composite.bytes_from_undecoded();
+                let skip_res = composite.skip_decoding();
+                if skip_res.is_ok() {
+                    *input = composite.bytes_from_undecoded();
+                }
 
-                val
+                // Prioritize returning visitor errors over skip_decoding errors.
+                let val = val?;
+                skip_res?;
+                Ok(val)
             }
         }
     }
-- 
2.43.0


From 3bfe0d4efd8ac20b9ff8c9a96813ffb4d5aeb454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 08/22] fix: skip attribute is honoured next to other codec
 attributes

---
 scale-decode-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 6a82174..5c11d2c 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -566,7 +566,8 @@ impl TopLevelAttrs {
 
 /// Parse the attributes attached to some field
 #[derive(Debug, FromAttributes, Default)]
-#[darling(attributes(decode_as_type, codec))]
+// Other codec attributes, like `#[codec(compact)]`, can sit alongside ours; ignore those.
+#[darling(attributes(decode_as_type, codec), allow_unknown_fields)]
 struct FieldAttrs {
     #[darling(default)]
     skip: bool,
-- 
2.43.0


From 13f66c349a26dc5dedfb6dcb92d0e7a11751807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 09/22] fix: wrapper visitors don't lose track of compact
 encoded fields

---
 scale-decode/src/impls/mod.rs             | 52 ++++++++++++++++++++---
 scale-decode/src/impls/primitive_types.rs | 18 +++++++-
 scale-decode/src/visitor/decode.rs        |  7 ++-
 scale-decode/src/visitor/mod.rs           | 28 +++++++++++-
 4 files changed, 96 insertions(+), 9 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 0e4a913..07f9fa6 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -19,7 +19,8 @@ mod primitive_types;
 use crate::{
     error::{Error, ErrorKind},
     visitor::{
-        self, decode_with_visitor, types::*, DecodeAsTypeResult, DecodeItemIterator, Visitor,
+        self, decode_with_visitor_maybe_compact, types::*, DecodeAsTypeResult, DecodeItemIterator,
+        Visitor,
     },
     DecodeAsFields, FieldIter, IntoVisitor,
 };
@@ -207,9 +208,19 @@ macro_rules! impl_into_visitor_like {
                 input: &mut &'scale [u8],
                 type_id: <Self::TypeResolver as TypeResolver>::TypeId,
                 types: &'resolver Self::TypeResolver,
+            ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
             ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
                 // Use the source visitor to decode into some type:
-                let inner_res = decode_with_visitor(input, type_id, types, <$source>::into_visitor());
+                let inner_res = decode_with_visitor_maybe_compact(input, type_id, types, <$source>::into_visitor(), is_compact);
                 // map this type into our desired output and return it:
                 let res = inner_res.and_then($mapper);
                 DecodeAsTypeResult::Decoded(res)
@@ -248,10 +259,25 @@ where
         input: &mut &'scale [u8],
         type_id: <Self::TypeResolver as TypeResolver>::TypeId,
         types: &'resolver Self::TypeResolver,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
         // Use the ToOwned visitor to decode into some type:
-        let inner_res =
-            decode_with_visitor(input, type_id, types, <<T as ToOwned>::Owned>::into_visitor());
+        let inner_res = decode_with_visitor_maybe_compact(
+            input,
+            type_id,
+            types,
+            <<T as ToOwned>::Owned>::into_visitor(),
+            is_compact,
+        );
         // map this type into our owned Cow to return:
         let res = inner_res.map(Cow::Owned);
         DecodeAsTypeResult::Decoded(res)
@@ -558,6 +584,16 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             input: &mut &'scale [u8],
             type_id: <Self::TypeResolver as TypeResolver>::TypeId,
             types: &'resolver Self::TypeResolver,
+        ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+            self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+        }
+
+        fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+            self,
+            input: &mut &'scale [u8],
+            type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+            types: &'resolver Self::TypeResolver,
+            is_compact: bool,
         ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
             use scale_type_resolver::{ResolvedTypeVisitor, UnhandledKind};
 
@@ -587,7 +623,13 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             }
 
             // Else, try to decode as the inner type.
-            let inner_res = decode_with_visitor(input, type_id, types, <$t>::into_visitor());
+            let inner_res = decode_with_visitor_maybe_compact(
+                input,
+                type_id,
+                types,
+                <$t>::into_visitor(),
+                is_compact,
+            );
             let res = inner_res.map(|val| (val,)).map_err(|e| e.into());
             DecodeAsTypeResult::Decoded(res)
         }
diff --git a/scale-decode/src/impls/primitive_types.rs b/scale-decode/src/impls/primitive_types.rs
index ff788f1..bd29940 100644
--- a/scale-decode/src/impls/primitive_types.rs
+++ b/scale-decode/src/impls/primitive_types.rs
@@ -16,7 +16,7 @@
 use super::BasicVisitor;
 use crate::{
     error::Error,
-    visitor::{decode_with_visitor, DecodeAsTypeResult, Visitor},
+    visitor::{decode_with_visitor_maybe_compact, DecodeAsTypeResult, Visitor},
     IntoVisitor,
 };
 use primitive_types::{H128, H160, H256, H384, H512, H768};
@@ -38,11 +38,25 @@ macro_rules! impl_visitor {
                 Self,
                 Result<Self::Value<'scale, 'resolver>, Self::Error>,
             > {
-                let res = decode_with_visitor(
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
+            ) -> crate::visitor::DecodeAsTypeResult<
+                Self,
+                Result<Self::Value<'scale, 'resolver>, Self::Error>,
+            > {
+                let res = decode_with_visitor_maybe_compact(
                     input,
                     type_id,
                     types,
                     BasicVisitor::<[u8; $len / 8], R> { _marker: core::marker::PhantomData },
+                    is_compact,
                 )
                 .map(|res| <$ty>::from(res));
                 DecodeAsTypeResult::Decoded(res)
diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 42d0ed3..eb6f001 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -46,7 +46,12 @@ pub fn decode_with_visitor_maybe_compact<'scale, 'resolver, V: Visitor>(
     is_compact: bool,
 ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
     // Provide option to "bail out" and do something custom first.
-    let visitor = match visitor.unchecked_decode_as_type(data, ty_id.clone(), types) {
+    let visitor = match visitor.unchecked_decode_as_type_maybe_compact(
+        data,
+        ty_id.clone(),
+        types,
+        is_compact,
+    ) {
         DecodeAsTypeResult::Decoded(r) => return r,
         DecodeAsTypeResult::Skipped(v) => v,
     };
diff --git a/scale-decode/src/visitor/mod.rs b/scale-decode/src/visitor/mod.rs
index f1bfc19..73d7ca3 100644
--- a/scale-decode/src/visitor/mod.rs
+++ b/scale-decode/src/visitor/mod.rs
@@ -60,6 +60,21 @@ pub trait Visitor: Sized {
         DecodeAsTypeResult::Skipped(self)
     }
 
+    /// This is what's actually called when we begin decoding something, and just delegates to
+    /// [`Visitor::unchecked_decode_as_type()`] by default. Visitors which hand the decoding over to some
+    /// other visitor should implement this so that they don't lose track of whether the bytes are compact
+    /// encoded or not.
+    #[doc(hidden)]
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        _is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type(input, type_id, types)
+    }
+
     /// This is called when a visitor function that you've not provided an implementation is called.
     /// You are provided an enum value corresponding to the function call, and can decide what to return
     /// in this case. The default is to return an error to announce the unexpected value.
@@ -420,7 +435,18 @@ where
         type_id: TypeIdFor<Self>,
         types: &'resolver Self::TypeResolver,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
-        let res = decode_with_visitor(input, type_id, types, self.0).map_err(Into::into);
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        let res = decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)
+            .map_err(Into::into);
         DecodeAsTypeResult::Decoded(res)
     }
 }
-- 
2.43.0


From 703236a6453528ca142cb418a0443515e23e9365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 10/22] fix: a failing field visitor doesn't affect decoding
 what comes after the composite or tuple

---
 scale-decode/src/visitor/decode.rs          | 20 +++++++++------
 scale-decode/src/visitor/types/composite.rs | 28 +++++++++++++++++----
 scale-decode/src/visitor/types/tuple.rs     | 28 +++++++++++++++++----
 3 files changed, 59 insertions(+), 17 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index eb6f001..0644e6c 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -102,9 +102,8 @@ macro_rules! skip_decoding_and_return {
     ($self:ident, $visit_result:ident, $visitor_ty:ident) => {{
         // Skip over any bytes that the visitor chose not to decode:
         let skip_res = $visitor_ty.skip_decoding();
-        if skip_res.is_ok() {
-            *$self.data = $visitor_ty.bytes_from_undecoded();
-        }
+        // Do this even if skipping failed, so that no bytes are looked at again at each level of nesting.
+        *$self.data = $visitor_ty.bytes_from_undecoded();
 
         // Prioritize returning visitor errors over skip_decoding errors.
         match ($visit_result, skip_res) {
@@ -353,10 +352,17 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
         let mut bitseq = BitSequence::new(format, self.data);
         let res = self.visitor.visit_bitsequence(&mut bitseq, self.type_id);
 
-        // Move to the bytes after the bit sequence, but prioritize returning visitor errors.
-        let val = res?;
-        *self.data = bitseq.bytes_after()?;
+        // Move to the bytes after the bit sequence.
+        let bytes_after_res = bitseq.bytes_after();
+        if let Ok(bytes_after) = bytes_after_res {
+            *self.data = bytes_after;
+        }
 
-        Ok(val)
+        // Prioritize returning visitor errors over bytes_after errors.
+        match (res, bytes_after_res) {
+            (Err(e), _) => Err(e),
+            (_, Err(e)) => Err(e.into()),
+            (Ok(v), _) => Ok(v),
+        }
     }
 }
diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index a1727c3..712eb5d 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -55,7 +55,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     /// Skip over all bytes associated with this composite type. After calling this,
     /// [`Self::bytes_from_undecoded()`] will represent the bytes after this composite type.
     pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
-        while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
+        while let Some(res) = self.decode_next(IgnoreVisitor::<R>::new()) {
             res?;
         }
         Ok(())
@@ -102,6 +102,25 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     pub fn decode_item<V: Visitor<TypeResolver = R>>(
         &mut self,
         visitor: V,
+    ) -> Option<Result<V::Value<'scale, 'resolver>, V::Error>> {
+        let field_idx = self.next_field_idx;
+        let res = self.decode_next(visitor)?;
+
+        if res.is_err() {
+            // The visitor could have failed on perfectly good bytes, and its error could be ignored,
+            // so move past whatever is left to not mess up the decoding of what comes after this.
+            self.next_field_idx = field_idx + 1;
+            let _ = self.skip_decoding();
+        }
+
+        Some(res)
+    }
+
+    // Decode the next field, preventing any future iterations (without moving past
+    // the remaining fields) if it fails.
+    fn decode_next<V: Visitor<TypeResolver = R>>(
+        &mut self,
+        visitor: V,
     ) -> Option<Result<V::Value<'scale, 'resolver>, V::Error>> {
         let field = self.fields.get(self.next_field_idx)?;
         let b = &mut &*self.item_bytes;
@@ -115,12 +134,11 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
             self.is_compact,
         );
 
+        self.item_bytes = *b;
         if res.is_ok() {
-            // Move our cursors forwards only if decode was OK:
-            self.item_bytes = *b;
             self.next_field_idx += 1;
         } else {
-            // Otherwise, skip to end to prevent any future iterations:
+            // Skip to end to prevent any future iterations:
             self.next_field_idx = self.fields.len()
         }
 
@@ -138,7 +156,7 @@ impl<'scale, 'resolver, R: TypeResolver> Iterator for Composite<'scale, 'resolve
         let item_bytes = self.item_bytes;
 
         // Now, decode and skip over the item we're going to hand back:
-        if let Err(e) = self.decode_item(IgnoreVisitor::<R>::new())? {
+        if let Err(e) = self.decode_next(IgnoreVisitor::<R>::new())? {
             return Some(Err(e));
         };
 
diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 25abb0d..ac671b7 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -42,7 +42,7 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
     /// Skip over all bytes associated with this tuple. After calling this,
     /// [`Self::bytes_from_undecoded()`] will represent the bytes after this tuple.
     pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
-        while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
+        while let Some(res) = self.decode_next(IgnoreVisitor::<R>::new()) {
             res?;
         }
         Ok(())
@@ -64,6 +64,25 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
     pub fn decode_item<V: Visitor<TypeResolver = R>>(
         &mut self,
         visitor: V,
+    ) -> Option<Result<V::Value<'scale, 'resolver>, V::Error>> {
+        let field_idx = self.next_field_idx;
+        let res = self.decode_next(visitor)?;
+
+        if res.is_err() {
+            // The visitor could have failed on perfectly good bytes, and its error could be ignored,
+            // so move past whatever is left to not mess up the decoding of what comes after this.
+            self.next_field_idx = field_idx + 1;
+            let _ = self.skip_decoding();
+        }
+
+        Some(res)
+    }
+
+    // Decode the next field, preventing any future iterations (without moving past
+    // the remaining fields) if it fails.
+    fn decode_next<V: Visitor<TypeResolver = R>>(
+        &mut self,
+        visitor: V,
     ) -> Option<Result<V::Value<'scale, 'resolver>, V::Error>> {
         let field = self.fields.get(self.next_field_idx)?;
         let b = &mut &*self.item_bytes;
@@ -76,12 +95,11 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
             self.is_compact,
         );
 
+        self.item_bytes = *b;
         if res.is_ok() {
-            // Move our cursors forwards only if decode was OK:
-            self.item_bytes = *b;
             self.next_field_idx += 1;
         } else {
-            // Otherwise, skip to end to prevent any future iterations:
+            // Skip to end to prevent any future iterations:
             self.next_field_idx = self.fields.len()
         }
 
@@ -99,7 +117,7 @@ impl<'scale, 'resolver, R: TypeResolver> Iterator for Tuple<'scale, 'resolver, R
         let item_bytes = self.item_bytes;
 
         // Now, decode and skip over the item we're going to hand back:
-        if let Err(e) = self.decode_item(IgnoreVisitor::<R>::new())? {
+        if let Err(e) = self.decode_next(IgnoreVisitor::<R>::new())? {
             return Some(Err(e));
         };
 
-- 
2.43.0


From c95aa3872a1695b05f625d0d1a43e32ecc8cf328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 11/22] fix: derive accepts structs with a type parameter
 called R

---
 scale-decode-derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 5c11d2c..346740f 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -315,10 +315,10 @@ fn generate_struct_impl(
             }
 
             impl #impl_generics #path_to_scale_decode::DecodeAsFields for #path_to_type #ty_generics #visitor_where_clause  {
-                fn decode_as_fields<'info, R: #path_to_scale_decode::TypeResolver>(
+                fn decode_as_fields<'info, #type_resolver_ident: #path_to_scale_decode::TypeResolver>(
                     input: &mut &[u8],
-                    fields: &mut dyn #path_to_scale_decode::FieldIter<'info, R::TypeId>,
-                    types: &'info R
+                    fields: &mut dyn #path_to_scale_decode::FieldIter<'info, #type_resolver_ident::TypeId>,
+                    types: &'info #type_resolver_ident
                 ) -> Result<Self, #path_to_scale_decode::Error>
                 {
                     let mut composite = #path_to_scale_decode::visitor::types::Composite::new(core::iter::empty(), input, fields, types, false);
-- 
2.43.0


From f757728050c1c379b9a8d6c8677de3cad8b80e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 12/22] fix: trait bounds aren't lost when followed by another
 attribute

---
 scale-decode-derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 346740f..09d4116 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -554,7 +554,9 @@ impl TopLevelAttrs {
             let meta = &attr.meta;
             let parsed_attrs = TopLevelAttrsInner::from_meta(meta)?;
 
-            res.trait_bounds = parsed_attrs.trait_bounds;
+            if let Some(trait_bounds) = parsed_attrs.trait_bounds {
+                res.trait_bounds = Some(trait_bounds);
+            }
             if let Some(crate_path) = parsed_attrs.crate_path {
                 res.crate_path = crate_path;
             }
-- 
2.43.0


From 4bf4a63a75af043fa2f2da3de165d1d4c530f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 13/22] fix: derived code works where Result or Option mean
 something else

---
 scale-decode-derive/src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 09d4116..c4a95fd 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -100,9 +100,9 @@ fn generate_enum_impl(
                         let vals = fields;
                         Ok(#path_to_type::#variant_ident { #(#field_tuple_keyvals),* })
                     } else {
-                        let vals: #path_to_scale_decode::BTreeMap<Option<&str>, _> = fields
+                        let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&str>, _> = fields
                             .map(|res| res.map(|item| (item.name(), item)))
-                            .collect::<Result<_, _>>()?;
+                            .collect::<::core::result::Result<_, _>>()?;
                         Ok(#path_to_type::#variant_ident { #(#field_composite_keyvals),* })
                     }
                 }
@@ -164,7 +164,7 @@ fn generate_enum_impl(
                     self,
                     value: &mut #path_to_scale_decode::visitor::types::Variant<'scale, 'info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
                     #(
                         #variant_ifs
                     )*
@@ -178,7 +178,7 @@ fn generate_enum_impl(
                     self,
                     value: &mut #path_to_scale_decode::visitor::types::Composite<'scale, 'info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
                     if value.remaining() != 1 {
                         return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Composite);
                     }
@@ -188,7 +188,7 @@ fn generate_enum_impl(
                     self,
                     value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale, 'info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
                     if value.remaining() != 1 {
                         return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Tuple);
                     }
@@ -230,8 +230,8 @@ fn generate_struct_impl(
                        return self.visit_tuple(&mut value.as_tuple(), type_id)
                     }
 
-                    let vals: #path_to_scale_decode::BTreeMap<Option<&str>, _> =
-                        value.map(|res| res.map(|item| (item.name(), item))).collect::<Result<_, _>>()?;
+                    let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&str>, _> =
+                        value.map(|res| res.map(|item| (item.name(), item))).collect::<::core::result::Result<_, _>>()?;
 
                     Ok(#path_to_type { #(#field_composite_keyvals),* })
                 },
@@ -302,14 +302,14 @@ fn generate_struct_impl(
                     self,
                     value: &mut #path_to_scale_decode::visitor::types::Composite<'scale, 'info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
                     #visit_composite_body
                 }
                 fn visit_tuple<'scale, 'info>(
                     self,
                     value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale, 'info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
                     #visit_tuple_body
                 }
             }
@@ -319,7 +319,7 @@ fn generate_struct_impl(
                     input: &mut &[u8],
                     fields: &mut dyn #path_to_scale_decode::FieldIter<'info, #type_resolver_ident::TypeId>,
                     types: &'info #type_resolver_ident
-                ) -> Result<Self, #path_to_scale_decode::Error>
+                ) -> ::core::result::Result<Self, #path_to_scale_decode::Error>
                 {
                     let mut composite = #path_to_scale_decode::visitor::types::Composite::new(core::iter::empty(), input, fields, types, false);
                     use #path_to_scale_decode::{ Visitor, IntoVisitor };
-- 
2.43.0


From 5ba752ad0117ac5012efc59c365428159bca059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:41 +0000
Subject: [PATCH 14/22] fix: skip attribute is honoured when given twice

---
 scale-decode-derive/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index c4a95fd..31bc9d5 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -347,7 +347,7 @@ fn named_field_keyvals<'f>(
     fields: &'f syn::FieldsNamed,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f, impl Iterator<Item = TokenStream2> + 'f) {
     let field_keyval_impls = fields.named.iter().map(move |f| {
-        let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
+        let field_attrs = FieldAttrs::parse(&f.attrs);
         let field_ident = f.ident.as_ref().expect("named field has ident");
         let field_name = field_ident.to_string();
         let skip_field = field_attrs.skip;
@@ -394,7 +394,7 @@ fn unnamed_field_vals<'f>(
     fields: &'f syn::FieldsUnnamed,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f) {
     let field_val_impls = fields.unnamed.iter().enumerate().map(|(idx, f)| {
-        let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
+        let field_attrs = FieldAttrs::parse(&f.attrs);
         let skip_field = field_attrs.skip;
 
         // If a field is skipped, we expect it to have a Default impl to use to populate it instead.
@@ -574,3 +574,13 @@ struct FieldAttrs {
     #[darling(default)]
     skip: bool,
 }
+
+impl FieldAttrs {
+    // Parse attributes one at a time, since it's fine for several to ask for the same thing.
+    fn parse(attrs: &[syn::Attribute]) -> Self {
+        let skip = attrs.iter().any(|attr| {
+            Self::from_attributes(core::slice::from_ref(attr)).unwrap_or_default().skip
+        });
+        FieldAttrs { skip }
+    }
+}
-- 
2.43.0


From 9bb88214b4f9610babaa4d500a2ee0ee58ca1e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 15/22] fix: derived code doesn't use names that the type it's
 for, or others nearby, may have

---
 scale-decode-derive/src/lib.rs | 62 ++++++++++++++++------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 31bc9d5..b4b219a 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -92,18 +92,18 @@ fn generate_enum_impl(
                     let fields = value.fields();
                     return if fields.has_unnamed_fields() {
                         if fields.remaining() != #field_count {
-                            return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
+                            return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
                                 actual_len: fields.remaining(),
                                 expected_len: #field_count
                             }));
                         }
                         let vals = fields;
-                        Ok(#path_to_type::#variant_ident { #(#field_tuple_keyvals),* })
+                        ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_tuple_keyvals),* })
                     } else {
                         let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&str>, _> = fields
                             .map(|res| res.map(|item| (item.name(), item)))
                             .collect::<::core::result::Result<_, _>>()?;
-                        Ok(#path_to_type::#variant_ident { #(#field_composite_keyvals),* })
+                        ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_composite_keyvals),* })
                     }
                 }
             },
@@ -116,18 +116,18 @@ fn generate_enum_impl(
                 quote!{
                     let fields = value.fields();
                     if fields.remaining() != #field_count {
-                        return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
                             actual_len: fields.remaining(),
                             expected_len: #field_count
                         }));
                     }
                     let vals = fields;
-                    return Ok(#path_to_type::#variant_ident ( #(#field_vals),* ))
+                    return ::core::result::Result::Ok(#path_to_type::#variant_ident ( #(#field_vals),* ))
                 }
             },
             syn::Fields::Unit => {
                 quote!{
-                    return Ok(#path_to_type::#variant_ident)
+                    return ::core::result::Result::Ok(#path_to_type::#variant_ident)
                 }
             },
         };
@@ -141,21 +141,20 @@ fn generate_enum_impl(
 
     quote!(
         const _: () = {
-            #visibility struct Visitor #visitor_impl_generics (
+            #visibility struct ScaleDecodeVisitor #visitor_impl_generics (
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
             );
 
-            use #path_to_scale_decode::vec;
-            use #path_to_scale_decode::ToString;
+            use #path_to_scale_decode::ToString as _;
 
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
-                type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = Visitor #visitor_ty_generics;
+                type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = ScaleDecodeVisitor #visitor_ty_generics;
                 fn into_visitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver>() -> Self::AnyVisitor<#type_resolver_ident> {
-                    Visitor(::core::marker::PhantomData)
+                    ScaleDecodeVisitor(::core::marker::PhantomData)
                 }
             }
 
-            impl #visitor_impl_generics #path_to_scale_decode::Visitor for Visitor #visitor_ty_generics #visitor_where_clause {
+            impl #visitor_impl_generics #path_to_scale_decode::Visitor for ScaleDecodeVisitor #visitor_ty_generics #visitor_where_clause {
                 type Error = #path_to_scale_decode::Error;
                 type Value<'scale, 'info> = #path_to_type #ty_generics;
                 type TypeResolver = #type_resolver_ident;
@@ -168,9 +167,9 @@ fn generate_enum_impl(
                     #(
                         #variant_ifs
                     )*
-                    Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindVariant {
+                    ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindVariant {
                         got: value.name().to_string(),
-                        expected: vec![#(#variant_names),*]
+                        expected: #path_to_scale_decode::vec![#(#variant_names),*]
                     }))
                 }
                 // Allow an enum to be decoded through nested 1-field composites and tuples:
@@ -233,16 +232,16 @@ fn generate_struct_impl(
                     let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&str>, _> =
                         value.map(|res| res.map(|item| (item.name(), item))).collect::<::core::result::Result<_, _>>()?;
 
-                    Ok(#path_to_type { #(#field_composite_keyvals),* })
+                    ::core::result::Result::Ok(#path_to_type { #(#field_composite_keyvals),* })
                 },
                 quote! {
                     if value.remaining() != #field_count {
-                        return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
                     }
 
                     let vals = value;
 
-                    Ok(#path_to_type { #(#field_tuple_keyvals),* })
+                    ::core::result::Result::Ok(#path_to_type { #(#field_tuple_keyvals),* })
                 },
             )
         }
@@ -255,12 +254,12 @@ fn generate_struct_impl(
                 },
                 quote! {
                     if value.remaining() != #field_count {
-                        return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
                     }
 
                     let vals = value;
 
-                    Ok(#path_to_type ( #( #field_vals ),* ))
+                    ::core::result::Result::Ok(#path_to_type ( #( #field_vals ),* ))
                 },
             )
         }
@@ -270,30 +269,29 @@ fn generate_struct_impl(
             },
             quote! {
                 if value.remaining() > 0 {
-                    return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: 0 }));
+                    return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: 0 }));
                 }
-                Ok(#path_to_type)
+                ::core::result::Result::Ok(#path_to_type)
             },
         ),
     };
 
     quote!(
         const _: () = {
-            #visibility struct Visitor #visitor_impl_generics (
+            #visibility struct ScaleDecodeVisitor #visitor_impl_generics (
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
             );
 
-            use #path_to_scale_decode::vec;
-            use #path_to_scale_decode::ToString;
+            use #path_to_scale_decode::ToString as _;
 
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
-                type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = Visitor #visitor_ty_generics;
+                type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = ScaleDecodeVisitor #visitor_ty_generics;
                 fn into_visitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver>() -> Self::AnyVisitor<#type_resolver_ident> {
-                    Visitor(::core::marker::PhantomData)
+                    ScaleDecodeVisitor(::core::marker::PhantomData)
                 }
             }
 
-            impl #visitor_impl_generics #path_to_scale_decode::Visitor for Visitor #visitor_ty_generics #visitor_where_clause {
+            impl #visitor_impl_generics #path_to_scale_decode::Visitor for ScaleDecodeVisitor #visitor_ty_generics #visitor_where_clause {
                 type Error = #path_to_scale_decode::Error;
                 type Value<'scale, 'info> = #path_to_type #ty_generics;
                 type TypeResolver = #type_resolver_ident;
@@ -321,9 +319,9 @@ fn generate_struct_impl(
                     types: &'info #type_resolver_ident
                 ) -> ::core::result::Result<Self, #path_to_scale_decode::Error>
                 {
-                    let mut composite = #path_to_scale_decode::visitor::types::Composite::new(core::iter::empty(), input, fields, types, false);
-                    use #path_to_scale_decode::{ Visitor, IntoVisitor };
-                    let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, Default::default());
+                    let mut composite = #path_to_scale_decode::visitor::types::Composite::new(::core::iter::empty(), input, fields, types, false);
+                    let visitor = <#path_to_type #ty_generics as #path_to_scale_decode::IntoVisitor>::into_visitor::<#type_resolver_ident>();
+                    let val = #path_to_scale_decode::Visitor::visit_composite(visitor, &mut composite, ::core::default::Default::default());
 
                     // Consume any remaining bytes and update input:
                     let skip_res = composite.skip_decoding();
@@ -334,7 +332,7 @@ fn generate_struct_impl(
                     // Prioritize returning visitor errors over skip_decoding errors.
                     let val = val?;
                     skip_res?;
-                    Ok(val)
+                    ::core::result::Result::Ok(val)
                 }
             }
         };
@@ -367,7 +365,7 @@ fn named_field_keyvals<'f>(
             // For turning named fields in scale typeinfo into named fields on struct like type:
             quote!(#field_ident: {
                 let val = vals
-                    .get(&Some(#field_name))
+                    .get(&::core::option::Option::Some(#field_name))
                     .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #field_name.to_string() }))?
                     .clone();
                 val.decode_as_type().map_err(|e| e.at_field(#field_name))?
-- 
2.43.0


From bfb6f5b8b577ea48940d5ec80665af3165d66ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 16/22] fix: types with lifetimes called 'scale or 'info can be
 derived for

---
 scale-decode-derive/src/lib.rs | 40 +++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index b4b219a..a2d2d5f 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -156,14 +156,14 @@ fn generate_enum_impl(
 
             impl #visitor_impl_generics #path_to_scale_decode::Visitor for ScaleDecodeVisitor #visitor_ty_generics #visitor_where_clause {
                 type Error = #path_to_scale_decode::Error;
-                type Value<'scale, 'info> = #path_to_type #ty_generics;
+                type Value<'__scale, '__info> = #path_to_type #ty_generics;
                 type TypeResolver = #type_resolver_ident;
 
-                fn visit_variant<'scale, 'info>(
+                fn visit_variant<'__scale, '__info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Variant<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Variant<'__scale, '__info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'__scale, '__info>, Self::Error> {
                     #(
                         #variant_ifs
                     )*
@@ -173,21 +173,21 @@ fn generate_enum_impl(
                     }))
                 }
                 // Allow an enum to be decoded through nested 1-field composites and tuples:
-                fn visit_composite<'scale, 'info>(
+                fn visit_composite<'__scale, '__info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Composite<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Composite<'__scale, '__info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'__scale, '__info>, Self::Error> {
                     if value.remaining() != 1 {
                         return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Composite);
                     }
                     value.decode_item(self).unwrap()
                 }
-                fn visit_tuple<'scale, 'info>(
+                fn visit_tuple<'__scale, '__info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'__scale, '__info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'__scale, '__info>, Self::Error> {
                     if value.remaining() != 1 {
                         return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Tuple);
                     }
@@ -293,30 +293,30 @@ fn generate_struct_impl(
 
             impl #visitor_impl_generics #path_to_scale_decode::Visitor for ScaleDecodeVisitor #visitor_ty_generics #visitor_where_clause {
                 type Error = #path_to_scale_decode::Error;
-                type Value<'scale, 'info> = #path_to_type #ty_generics;
+                type Value<'__scale, '__info> = #path_to_type #ty_generics;
                 type TypeResolver = #type_resolver_ident;
 
-                fn visit_composite<'scale, 'info>(
+                fn visit_composite<'__scale, '__info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Composite<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Composite<'__scale, '__info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'__scale, '__info>, Self::Error> {
                     #visit_composite_body
                 }
-                fn visit_tuple<'scale, 'info>(
+                fn visit_tuple<'__scale, '__info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'__scale, '__info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'__scale, '__info>, Self::Error> {
                     #visit_tuple_body
                 }
             }
 
             impl #impl_generics #path_to_scale_decode::DecodeAsFields for #path_to_type #ty_generics #visitor_where_clause  {
-                fn decode_as_fields<'info, #type_resolver_ident: #path_to_scale_decode::TypeResolver>(
+                fn decode_as_fields<'__info, #type_resolver_ident: #path_to_scale_decode::TypeResolver>(
                     input: &mut &[u8],
-                    fields: &mut dyn #path_to_scale_decode::FieldIter<'info, #type_resolver_ident::TypeId>,
-                    types: &'info #type_resolver_ident
+                    fields: &mut dyn #path_to_scale_decode::FieldIter<'__info, #type_resolver_ident::TypeId>,
+                    types: &'__info #type_resolver_ident
                 ) -> ::core::result::Result<Self, #path_to_scale_decode::Error>
                 {
                     let mut composite = #path_to_scale_decode::visitor::types::Composite::new(::core::iter::empty(), input, fields, types, false);
-- 
2.43.0


From 920849362f447952a5e6fb5bf1ff0b43da2b1966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 17/22] fix: string lengths near the limit of usize don't
 overflow on 32 bit targets

---
 scale-decode/src/visitor/types/str.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scale-decode/src/visitor/types/str.rs b/scale-decode/src/visitor/types/str.rs
index f8d788c..db65500 100644
--- a/scale-decode/src/visitor/types/str.rs
+++ b/scale-decode/src/visitor/types/str.rs
@@ -47,7 +47,7 @@ impl<'scale> Str<'scale> {
     }
     /// The bytes remaining in the input after this string.
     pub fn bytes_after(&self) -> Result<&'scale [u8], DecodeError> {
-        self.bytes.get(self.compact_len + self.len..).ok_or(DecodeError::NotEnoughInput)
+        self.end().and_then(|end| self.bytes.get(end..)).ok_or(DecodeError::NotEnoughInput)
     }
     /// Is the string zero bytes long?
     pub fn is_empty(&self) -> bool {
@@ -56,8 +56,12 @@ impl<'scale> Str<'scale> {
     /// return a string, failing if the bytes could not be properly utf8-decoded.
     pub fn as_str(&self) -> Result<&'scale str, DecodeError> {
         let start = self.compact_len;
-        let end = start + self.len;
-        alloc::str::from_utf8(self.bytes.get(start..end).ok_or(DecodeError::NotEnoughInput)?)
+        let bytes = self.end().and_then(|end| self.bytes.get(start..end));
+        alloc::str::from_utf8(bytes.ok_or(DecodeError::NotEnoughInput)?)
             .map_err(DecodeError::InvalidStr)
     }
+    // Where the string would end. On 32 bit targets that can be more than a usize has room for.
+    fn end(&self) -> Option<usize> {
+        self.compact_len.checked_add(self.len)
+    }
 }
-- 
2.43.0


From 4c3c0fd340efeb3846b504bae4ba1223baee9764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 18/22] fix: sequence lengths which don't fit into a usize
 aren't truncated

---
 scale-decode/src/visitor/types/sequence.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/sequence.rs b/scale-decode/src/visitor/types/sequence.rs
index b9ada17..5c4ded8 100644
--- a/scale-decode/src/visitor/types/sequence.rs
+++ b/scale-decode/src/visitor/types/sequence.rs
@@ -39,7 +39,9 @@ impl<'scale, 'resolver, R: TypeResolver> Sequence<'scale, 'resolver, R> {
         // Sequences are prefixed with their length in bytes. Make a note of this,
         // as well as the number of bytes
         let item_bytes = &mut &*bytes;
-        let len = <Compact<u64>>::decode(item_bytes)?.0 as usize;
+        let len = <Compact<u64>>::decode(item_bytes)?.0;
+        // There can't be this many items if there's no room for them in memory.
+        let len = usize::try_from(len).map_err(|_| DecodeError::NotEnoughInput)?;
 
         Ok(Sequence { bytes, values: Array::new(item_bytes, type_id, len, types) })
     }
-- 
2.43.0


From 3dce3e3b49a3eedc582404fed399210c98e6aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 19/22] fix: the location of an error reads from the outside to
 the inside

---
 scale-decode/src/error/context.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scale-decode/src/error/context.rs b/scale-decode/src/error/context.rs
index 5dbb440..9ed897e 100644
--- a/scale-decode/src/error/context.rs
+++ b/scale-decode/src/error/context.rs
@@ -23,6 +23,7 @@ use alloc::{borrow::Cow, vec::Vec};
 /// error reporting.
 #[derive(Clone, Default, Debug)]
 pub struct Context {
+    // Locations are added while unwinding from an error, so the innermost one comes first.
     path: Vec<Location>,
 }
 
@@ -31,7 +32,7 @@ impl Context {
     pub fn new() -> Context {
         Default::default()
     }
-    /// Return a new context with the given location appended.
+    /// Note that everything so far happened inside of the given location.
     pub fn push(&mut self, loc: Location) {
         self.path.push(loc);
     }
@@ -49,15 +50,15 @@ impl<'a> Path<'a> {
     pub fn into_owned(self) -> Path<'static> {
         Path(Cow::Owned(self.0.into_owned()))
     }
-    /// Return each location visited, oldest first
+    /// Return each location visited, oldest (ie outermost) first
     pub fn locations(&self) -> impl Iterator<Item = &Location> {
-        self.0.iter()
+        self.0.iter().rev()
     }
 }
 
 impl<'a> core::fmt::Display for Path<'a> {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for (idx, loc) in self.0.iter().enumerate() {
+        for (idx, loc) in self.locations().enumerate() {
             if idx != 0 {
                 f.write_str(".")?;
             }
-- 
2.43.0


From 8059e5782dbaa856365d36a095d1e8eee172cb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 20/22] fix: errors in the fields of a derived variant say
 which variant they were in

---
 scale-decode-derive/src/lib.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index a2d2d5f..28d8aa0 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -86,7 +86,7 @@ fn generate_enum_impl(
                     field_count,
                     field_composite_keyvals,
                     field_tuple_keyvals
-                ) = named_field_keyvals(path_to_scale_decode, fields);
+                ) = named_field_keyvals(path_to_scale_decode, fields, Some(&variant_name));
 
                 quote!{
                     let fields = value.fields();
@@ -95,7 +95,7 @@ fn generate_enum_impl(
                             return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
                                 actual_len: fields.remaining(),
                                 expected_len: #field_count
-                            }));
+                            }).at_variant(#variant_name));
                         }
                         let vals = fields;
                         ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_tuple_keyvals),* })
@@ -111,7 +111,7 @@ fn generate_enum_impl(
                 let (
                     field_count,
                     field_vals
-                ) = unnamed_field_vals(path_to_scale_decode, fields);
+                ) = unnamed_field_vals(path_to_scale_decode, fields, Some(&variant_name));
 
                 quote!{
                     let fields = value.fields();
@@ -119,7 +119,7 @@ fn generate_enum_impl(
                         return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
                             actual_len: fields.remaining(),
                             expected_len: #field_count
-                        }));
+                        }).at_variant(#variant_name));
                     }
                     let vals = fields;
                     return ::core::result::Result::Ok(#path_to_type::#variant_ident ( #(#field_vals),* ))
@@ -221,7 +221,7 @@ fn generate_struct_impl(
     let (visit_composite_body, visit_tuple_body) = match &details.fields {
         syn::Fields::Named(fields) => {
             let (field_count, field_composite_keyvals, field_tuple_keyvals) =
-                named_field_keyvals(path_to_scale_decode, fields);
+                named_field_keyvals(path_to_scale_decode, fields, None);
 
             (
                 quote! {
@@ -246,7 +246,7 @@ fn generate_struct_impl(
             )
         }
         syn::Fields::Unnamed(fields) => {
-            let (field_count, field_vals) = unnamed_field_vals(path_to_scale_decode, fields);
+            let (field_count, field_vals) = unnamed_field_vals(path_to_scale_decode, fields, None);
 
             (
                 quote! {
@@ -343,7 +343,9 @@ fn generate_struct_impl(
 fn named_field_keyvals<'f>(
     path_to_scale_decode: &'f syn::Path,
     fields: &'f syn::FieldsNamed,
+    variant_name: Option<&str>,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f, impl Iterator<Item = TokenStream2> + 'f) {
+    let at_variant = at_variant(variant_name);
     let field_keyval_impls = fields.named.iter().map(move |f| {
         let field_attrs = FieldAttrs::parse(&f.attrs);
         let field_ident = f.ident.as_ref().expect("named field has ident");
@@ -366,14 +368,14 @@ fn named_field_keyvals<'f>(
             quote!(#field_ident: {
                 let val = vals
                     .get(&::core::option::Option::Some(#field_name))
-                    .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #field_name.to_string() }))?
+                    .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #field_name.to_string() })#at_variant)?
                     .clone();
-                val.decode_as_type().map_err(|e| e.at_field(#field_name))?
+                val.decode_as_type().map_err(|e| e.at_field(#field_name)#at_variant)?
             }),
             // For turning named fields in scale typeinfo into unnamed fields on tuple like type:
             quote!(#field_ident: {
                 let val = vals.next().expect("field count should have been checked already on tuple type; please file a bug report")?;
-                val.decode_as_type().map_err(|e| e.at_field(#field_name))?
+                val.decode_as_type().map_err(|e| e.at_field(#field_name)#at_variant)?
             })
         )
     });
@@ -390,8 +392,10 @@ fn named_field_keyvals<'f>(
 fn unnamed_field_vals<'f>(
     _path_to_scale_decode: &'f syn::Path,
     fields: &'f syn::FieldsUnnamed,
+    variant_name: Option<&str>,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f) {
-    let field_val_impls = fields.unnamed.iter().enumerate().map(|(idx, f)| {
+    let at_variant = at_variant(variant_name);
+    let field_val_impls = fields.unnamed.iter().enumerate().map(move |(idx, f)| {
         let field_attrs = FieldAttrs::parse(&f.attrs);
         let skip_field = field_attrs.skip;
 
@@ -406,7 +410,7 @@ fn unnamed_field_vals<'f>(
             // For turning unnamed fields in scale typeinfo into unnamed fields on tuple like type:
             quote!({
                 let val = vals.next().expect("field count should have been checked already on tuple type; please file a bug report")?;
-                val.decode_as_type().map_err(|e| e.at_idx(#idx))?
+                val.decode_as_type().map_err(|e| e.at_idx(#idx)#at_variant)?
             }),
         )
     });
@@ -418,6 +422,11 @@ fn unnamed_field_vals<'f>(
     (field_count, field_vals)
 }
 
+// Errors decoding the fields of a variant mention that variant.
+fn at_variant(variant_name: Option<&str>) -> Option<TokenStream2> {
+    variant_name.map(|name| quote!(.at_variant(#name)))
+}
+
 fn handle_generics(attrs: &TopLevelAttrs, generics: syn::Generics) -> GenericTypes {
     let path_to_crate = &attrs.crate_path;
 
-- 
2.43.0


From 1947bc87278790a4d8d104e0521505c8b3acee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 21/22] fix: have the derive bring the std traits it uses into
 scope

Derived code calls methods of Iterator and Clone, and so didn't compile in
modules with #![no_implicit_prelude].
---
 scale-decode-derive/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 28d8aa0..2e8cf08 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -146,6 +146,8 @@ fn generate_enum_impl(
             );
 
             use #path_to_scale_decode::ToString as _;
+            // Not everything has the standard prelude in scope.
+            use ::core::{clone::Clone as _, iter::Iterator as _};
 
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
                 type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = ScaleDecodeVisitor #visitor_ty_generics;
@@ -283,6 +285,8 @@ fn generate_struct_impl(
             );
 
             use #path_to_scale_decode::ToString as _;
+            // Not everything has the standard prelude in scope.
+            use ::core::{clone::Clone as _, iter::Iterator as _};
 
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
                 type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = ScaleDecodeVisitor #visitor_ty_generics;
-- 
2.43.0


From e8ccba8a5e31cc5f9da832d765ad647d8b88c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 22/22] fix: let the derive handle type parameters which
 needn't be sized

The generated visitor's PhantomData mentioned type parameters in a tuple, and
lost what a where clause said of them, so that definitions like
struct A<T: ?Sized> didn't compile.
---
 scale-decode-derive/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 2e8cf08..883e34d 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -68,6 +68,7 @@ fn generate_enum_impl(
     let generic_types = handle_generics(&attrs, input.generics.clone());
     let ty_generics = generic_types.ty_generics();
     let impl_generics = generic_types.impl_generics();
+    let type_where_clause = generic_types.type_where_clause();
     let visitor_where_clause = generic_types.visitor_where_clause();
     let visitor_ty_generics = generic_types.visitor_ty_generics();
     let visitor_impl_generics = generic_types.visitor_impl_generics();
@@ -143,7 +144,7 @@ fn generate_enum_impl(
         const _: () = {
             #visibility struct ScaleDecodeVisitor #visitor_impl_generics (
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
-            );
+            ) #type_where_clause;
 
             use #path_to_scale_decode::ToString as _;
             // Not everything has the standard prelude in scope.
@@ -212,6 +213,7 @@ fn generate_struct_impl(
     let generic_types = handle_generics(&attrs, input.generics.clone());
     let ty_generics = generic_types.ty_generics();
     let impl_generics = generic_types.impl_generics();
+    let type_where_clause = generic_types.type_where_clause();
     let visitor_where_clause = generic_types.visitor_where_clause();
     let visitor_ty_generics = generic_types.visitor_ty_generics();
     let visitor_impl_generics = generic_types.visitor_impl_generics();
@@ -282,7 +284,7 @@ fn generate_struct_impl(
         const _: () = {
             #visibility struct ScaleDecodeVisitor #visitor_impl_generics (
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
-            );
+            ) #type_where_clause;
 
             use #path_to_scale_decode::ToString as _;
             // Not everything has the standard prelude in scope.
@@ -454,12 +456,13 @@ fn handle_generics(attrs: &TopLevelAttrs, generics: syn::Generics) -> GenericTyp
         where_clause
     };
 
-    // (A, B, C, ScaleDecodeTypeResolver) style PhantomData type to use in Visitor struct.
+    // (PhantomData<A>, PhantomData<B>, ScaleDecodeTypeResolver) style PhantomData type to use in Visitor struct.
     let visitor_phantomdata_type = {
         let tys = generics.params.iter().filter_map::<syn::Type, _>(|p| match p {
             syn::GenericParam::Type(ty) => {
                 let ty = &ty.ident;
-                Some(syn::parse_quote!(#ty))
+                // (which needn't be sized)
+                Some(syn::parse_quote!(::core::marker::PhantomData<#ty>))
             }
             syn::GenericParam::Lifetime(lt) => {
                 let lt = &lt.lifetime;
@@ -516,6 +519,9 @@ impl GenericTypes {
         let (impl_generics, _, _) = self.type_generics.split_for_impl();
         impl_generics
     }
+    pub fn type_where_clause(&self) -> Option<&syn::WhereClause> {
+        self.type_generics.where_clause.as_ref()
+    }
     pub fn visitor_where_clause(&self) -> &syn::WhereClause {
         &self.visitor_where_clause
     }
-- 
2.43.0

