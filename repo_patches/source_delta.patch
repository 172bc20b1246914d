From d5e74acbc536fd801972381bbba3c457cb529886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 01/17] fix: encode composites to wrapped collections without
 losing a level of nesting

A value that matches its type exactly, like ((Vec<Vec<u8>>,),), was
encoded by skipping every single field wrapper of the type while unwrapping
the value just once, so that its elements were read one level too deep.
Line values up with the fields of each layer instead, and don't repeat an
attempt to encode the only inner value, which made the work to encode (or
refuse) nested single values exponential in their depth.
---
 src/scale_impls/encode.rs | 97 +++++++++++++++++++++++++--------------
 1 file changed, 62 insertions(+), 35 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 5dcebee..831f319 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -21,7 +21,7 @@ use scale_decode::TypeResolver;
 use scale_encode::error::ErrorKind;
 use scale_encode::{error::Kind, EncodeAsFields, EncodeAsType, Error};
 use scale_encode::{
-    Composite as EncodeComposite, CompositeField, FieldIter, Variant as EncodeVariant,
+    Composite as EncodeComposite, CompositeField, Field, FieldIter, Variant as EncodeVariant,
 };
 
 impl<T> EncodeAsType for Value<T> {
@@ -86,53 +86,57 @@ fn encode_composite<T, R: TypeResolver>(
     out: &mut Vec<u8>,
 ) -> Result<(), Error> {
     // Encode our composite Value as-is (pretty much; we will try to
-    // unwrap the Value only if we need primitives).
+    // unwrap the Value only if we need primitives, and tell `tried_inner`
+    // that we did).
     fn do_encode_composite<T, R: TypeResolver>(
         value: &Composite<T>,
         type_id: R::TypeId,
         types: &R,
         out: &mut Vec<u8>,
+        tried_inner: &mut bool,
     ) -> Result<(), Error> {
+        // If our fields have names, then line them up with the fields of a named composite,
+        // even when that is hidden behind newtype wrappers (whose field has no name to line up).
+        let type_id = match value {
+            Composite::Named(_) => find_named_fields(type_id.clone(), types).unwrap_or(type_id),
+            Composite::Unnamed(_) => type_id,
+        };
+
         // context to hand to visitor functions:
-        let ctx = (type_id.clone(), out);
-
-        let visit_composite_or_tuple =
-            |(type_id, out): (R::TypeId, &mut Vec<u8>)| -> Result<(), Error> {
-                match value {
-                    Composite::Named(vals) => {
-                        let keyvals =
-                            vals.iter().map(|(key, val)| (Some(&**key), CompositeField::new(val)));
-                        EncodeComposite::new(keyvals)
-                            .encode_composite_as_type_to(type_id, types, out)
-                    }
-                    Composite::Unnamed(vals) => {
-                        let vals = vals.iter().map(|val| (None, CompositeField::new(val)));
-                        EncodeComposite::new(vals).encode_composite_as_type_to(type_id, types, out)
-                    }
-                }
-            };
+        let ctx = (type_id.clone(), out, tried_inner);
 
         let visitor = scale_type_resolver::visitor::new::<
             '_,
-            (R::TypeId, &mut Vec<u8>),
+            (R::TypeId, &mut Vec<u8>, &mut bool),
             R::TypeId,
             Result<(), Error>,
             _,
-        >(ctx, |(type_id, out), _| {
-            let mut values = value.values();
-            match (values.next(), values.next()) {
+        >(ctx, |(type_id, out, tried_inner), _| {
+            match get_only_value_from_composite(value) {
                 // Exactly one value:
-                (Some(value), None) => value.encode_as_type_to(type_id, types, out),
+                Some(value) => {
+                    *tried_inner = true;
+                    value.encode_as_type_to(type_id, types, out)
+                }
                 // Some other number of values:
-                _ => Err(Error::new(ErrorKind::WrongShape {
+                None => Err(Error::new(ErrorKind::WrongShape {
                     actual: Kind::Tuple,
                     expected_id: format!("{:?}", type_id),
                 })),
             }
         })
-        .visit_composite(|ctx, _, _| visit_composite_or_tuple(ctx))
-        .visit_tuple(|ctx, _| visit_composite_or_tuple(ctx))
-        .visit_sequence(|(_, out), _path, type_id| {
+        // Note: we line our values up with the fields ourselves, rather than asking `scale_encode`
+        // to encode us to the composite/tuple type, because that skips through _every_ newtype
+        // wrapper in the type while unwrapping our Value just once, and so loses track of which
+        // of our values belongs to which type if those can be sequences.
+        .visit_composite(|(_, out, _), _, mut fields| {
+            value.encode_as_fields_to(&mut fields, types, out)
+        })
+        .visit_tuple(|(_, out, _), type_ids| {
+            let mut fields = type_ids.map(Field::unnamed);
+            value.encode_as_fields_to(&mut fields, types, out)
+        })
+        .visit_sequence(|(_, out, _), _path, type_id| {
             // sequences start with compact encoded length:
             Compact(value.len() as u32).encode_to(out);
             match value {
@@ -151,7 +155,7 @@ fn encode_composite<T, R: TypeResolver>(
             }
             Ok(())
         })
-        .visit_array(|(_, out), type_id, array_len| {
+        .visit_array(|(_, out, _), type_id, array_len| {
             if value.len() != array_len {
                 return Err(Error::new(ErrorKind::WrongLength {
                     actual_len: value.len(),
@@ -163,7 +167,7 @@ fn encode_composite<T, R: TypeResolver>(
             }
             Ok(())
         })
-        .visit_bit_sequence(|(_, out), store, order| {
+        .visit_bit_sequence(|(_, out, _), store, order| {
             let format = scale_bits::Format { store, order };
             encode_vals_to_bitsequence(value.values(), out, format)
         });
@@ -179,9 +183,10 @@ fn encode_composite<T, R: TypeResolver>(
     // bytes if the encoding is actually successful. This means that if the
     // Value provided matches the structure of the TypeInfo exactly, things
     // should always work.
+    let mut tried_inner = false;
     let original_error = {
         let mut temp_out = Vec::new();
-        match do_encode_composite(value, type_id.clone(), types, &mut temp_out) {
+        match do_encode_composite(value, type_id.clone(), types, &mut temp_out, &mut tried_inner) {
             Ok(()) => {
                 out.extend_from_slice(&temp_out);
                 return Ok(());
@@ -199,8 +204,13 @@ fn encode_composite<T, R: TypeResolver>(
             find_single_entry_with_same_repr::<R>(type_id.clone(), types);
         if inner_is_different {
             let mut temp_out = Vec::new();
-            if let Ok(()) = do_encode_composite(value, inner_type_id.clone(), types, &mut temp_out)
-            {
+            if let Ok(()) = do_encode_composite(
+                value,
+                inner_type_id.clone(),
+                types,
+                &mut temp_out,
+                &mut tried_inner,
+            ) {
                 out.extend_from_slice(&temp_out);
                 return Ok(());
             }
@@ -212,8 +222,9 @@ fn encode_composite<T, R: TypeResolver>(
     // ie contains just one value) to see if, after doing so, the thing can be successfully
     // encoded. The inner `.encode_as_type_to` will loop around and peel off another layer
     // etc if no luck. Ultimately we'll just return the original error below if this all
-    // fails.
-    if let Some(value) = get_only_value_from_composite(value) {
+    // fails. If this was tried already above then don't repeat it; else the number of attempts
+    // would double with each layer.
+    if let (Some(value), false) = (get_only_value_from_composite(value), tried_inner) {
         let mut temp_out = Vec::new();
         if let Ok(()) = value.encode_as_type_to(type_id.clone(), types, &mut temp_out) {
             out.extend_from_slice(&temp_out);
@@ -225,6 +236,22 @@ fn encode_composite<T, R: TypeResolver>(
     Err(original_error)
 }
 
+/// Skip into the target type past any wrappers which have a single field without a name, and
+/// return the ID of what is there if it is a composite type with named fields.
+fn find_named_fields<R: TypeResolver>(type_id: R::TypeId, types: &R) -> Option<R::TypeId> {
+    let visitor = scale_type_resolver::visitor::new(type_id.clone(), |_, _| None)
+        .visit_tuple(|_, fields| match (fields.next(), fields.next()) {
+            (Some(ty), None) => find_named_fields(ty, types),
+            _ => None,
+        })
+        .visit_composite(|type_id, _, fields| match (fields.next(), fields.next()) {
+            (Some(field), None) if field.name.is_none() => find_named_fields(field.id, types),
+            (Some(field), _) if field.name.is_some() => Some(type_id),
+            _ => None,
+        });
+    types.resolve_type(type_id, visitor).unwrap_or(None)
+}
+
 /// Skip into the target type past any newtype wrapper like things.
 /// Also returns a bool indicating whether we skipped into something or not.
 /// This bool is true when the returned id is different from the id that was passed in.
-- 
2.43.0


From fa7d9b5ad949f5a554f39e4e35d9aedaf349dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 02/17] fix: decode signed 256 bit integers as such

They were handed back as Primitive::U256.
---
 src/scale_impls/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index fa3d533..f9102c7 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -287,7 +287,7 @@ where
         type_id: R::TypeId,
     ) -> Result<Self::Value<'_, 'info>, Self::Error> {
         Ok(Value {
-            value: ValueDef::Primitive(Primitive::U256(*value)),
+            value: ValueDef::Primitive(Primitive::I256(*value)),
             context: F::context_from_type_id(&type_id),
         })
     }
-- 
2.43.0


From cc11006d1ca7494aa6cfe818ea1720b12cdd73c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 03/17] fix: encode chars and 256 bit numbers to types of their
 own

Values of the char, u256 and i256 types decode fine, but could not be
encoded back to these types.
---
 src/scale_impls/encode.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 831f319..26701f6 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -23,6 +23,7 @@ use scale_encode::{error::Kind, EncodeAsFields, EncodeAsType, Error};
 use scale_encode::{
     Composite as EncodeComposite, CompositeField, Field, FieldIter, Variant as EncodeVariant,
 };
+use scale_type_resolver::Primitive as PrimitiveType;
 
 impl<T> EncodeAsType for Value<T> {
     fn encode_as_type_to<R: TypeResolver>(
@@ -378,15 +379,44 @@ fn encode_primitive<R: TypeResolver>(
 ) -> Result<(), Error> {
     match value {
         Primitive::Bool(val) => val.encode_as_type_to(type_id, types, bytes),
-        Primitive::Char(val) => val.encode_as_type_to(type_id, types, bytes),
+        Primitive::Char(val) => {
+            // `scale_encode` knows how to encode chars to numbers, but not to chars.
+            if is_primitive(type_id.clone(), types, PrimitiveType::Char) {
+                (*val as u32).encode_to(bytes);
+                return Ok(());
+            }
+            val.encode_as_type_to(type_id, types, bytes)
+        }
         Primitive::String(val) => val.encode_as_type_to(type_id, types, bytes),
         Primitive::U128(val) => val.encode_as_type_to(type_id, types, bytes),
         Primitive::I128(val) => val.encode_as_type_to(type_id, types, bytes),
-        Primitive::U256(val) => val.encode_as_type_to(type_id, types, bytes),
-        Primitive::I256(val) => val.encode_as_type_to(type_id, types, bytes),
+        // `scale_encode` knows how to encode these to collections of bytes,
+        // but not to 256 bit numbers.
+        Primitive::U256(val) => {
+            if is_primitive(type_id.clone(), types, PrimitiveType::U256) {
+                bytes.extend_from_slice(val);
+                return Ok(());
+            }
+            val.encode_as_type_to(type_id, types, bytes)
+        }
+        Primitive::I256(val) => {
+            if is_primitive(type_id.clone(), types, PrimitiveType::I256) {
+                bytes.extend_from_slice(val);
+                return Ok(());
+            }
+            val.encode_as_type_to(type_id, types, bytes)
+        }
     }
 }
 
+// Is the type this primitive, ignoring any newtype wrappers around it?
+fn is_primitive<R: TypeResolver>(type_id: R::TypeId, types: &R, primitive: PrimitiveType) -> bool {
+    let (type_id, _) = find_single_entry_with_same_repr::<R>(type_id, types);
+    let visitor = scale_type_resolver::visitor::new((), |_, _| false)
+        .visit_primitive(|_, actual| actual == primitive);
+    types.resolve_type(type_id, visitor).unwrap_or(false)
+}
+
 fn encode_bitsequence<R: TypeResolver>(
     value: &Bits,
     type_id: R::TypeId,
-- 
2.43.0


From 5f316851964e019abd6fad872dd806a048c4a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 04/17] fix: don't allocate for more items than there are bytes
 to decode

The length of a sequence is read from the input, so a few bytes could ask for
more memory than there is and abort the process (or panic with a capacity
overflow).
---
 src/scale_impls/decode.rs                  | 5 ++++-
 src/scale_impls/tracing_decoder/visitor.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index f9102c7..0a33dff 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -75,7 +75,10 @@ where
 // Sequences, Tuples and Arrays all have the same methods, so decode them in the same way:
 macro_rules! to_unnamed_composite {
     ($value:ident, $type_id:ident) => {{
-        let mut vals = Vec::with_capacity($value.remaining());
+        // The number of items comes from the input (for sequences), so don't trust it further
+        // than the number of bytes that are left to decode them from.
+        let mut vals =
+            Vec::with_capacity($value.remaining().min($value.bytes_from_undecoded().len()));
         while let Some(val) = $value.decode_item(DecodeValueVisitor::<R, F>::new()) {
             let val = val?;
             vals.push(val);
diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index e80e229..5404fd8 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -69,7 +69,10 @@ macro_rules! to_unnamed_composite {
                 return Err(err);
             }
 
-            let mut vals = Vec::with_capacity($value.remaining());
+            // The number of items comes from the input (for sequences), so don't trust it further
+            // than the number of bytes that are left to decode them from.
+            let mut vals =
+                Vec::with_capacity($value.remaining().min($value.bytes_from_undecoded().len()));
             while let Some(val) = $value.decode_item($self.at_idx(idx)) {
                 match val {
                     Err(e) => {
-- 
2.43.0


From 145d4e32b56253a344f75eef26aebee105c3b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 05/17] fix: include the variant name in the path of tracing
 errors

The path handed down to the fields of a variant lacked the name of the variant.
---
 src/scale_impls/tracing_decoder/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index 5404fd8..58bdbee 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -286,7 +286,7 @@ where
     ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
         let variant_name = value.name();
         let path = self.path.at_variant(variant_name.to_owned());
-        let values = visit_composite(&self, value.fields());
+        let values = visit_composite(&self.at_path(path.clone()), value.fields());
         match values {
             Err(e) => {
                 let merged_error = e.with_outer_context(
-- 
2.43.0


From 36d555d0e6d760726fee92a964da2da83f433244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 06/17] fix: display tracing errors even if 256 bit numbers
 were decoded

There is no default text for 256 bit numbers, so displaying the part of the
value decoded so far failed, and to_string() on the error panicked.
---
 src/scale_impls/tracing_decoder/error.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/error.rs b/src/scale_impls/tracing_decoder/error.rs
index a7f784f..4ba1672 100644
--- a/src/scale_impls/tracing_decoder/error.rs
+++ b/src/scale_impls/tracing_decoder/error.rs
@@ -17,7 +17,7 @@ use super::path::Path;
 use crate::prelude::*;
 use crate::scale::DecodeError;
 use crate::string_impls::format_hex;
-use crate::Value;
+use crate::{Primitive, Value, ValueDef};
 use core::fmt::Write;
 
 /// An error encountered when decoding some bytes using the [`crate::scale::tracing`] module.
@@ -133,5 +133,18 @@ fn display_value_with_typeid<Id: core::fmt::Debug>(
             write!(writer, "{type_id:?}")
         })
         .add_custom_formatter(|value, writer| format_hex(value, writer))
+        .add_custom_formatter(|value, writer| format_256_bit(value, writer))
         .write(value, f)
 }
+
+// There is no default formatting for 256 bit numbers, but being unable to print
+// a part of the value should not prevent the error from being displayed.
+fn format_256_bit<T, W: Write>(value: &Value<T>, mut writer: W) -> Option<core::fmt::Result> {
+    let ValueDef::Primitive(Primitive::U256(bytes) | Primitive::I256(bytes)) = &value.value else {
+        return None;
+    };
+    let res = writer
+        .write_str("0x")
+        .and_then(|()| bytes.iter().try_for_each(|b| write!(writer, "{b:02X}")));
+    Some(res)
+}
-- 
2.43.0


From 764d1001c83fe973745d40ea6da4a47440b72504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 07/17] fix: give custom parsers a cursor each and consume
 exactly what they did

---
 src/string_impls/from_string.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 77f89e6..f629cb2 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -227,16 +227,18 @@ fn parse_value(
     if !custom_parsers.is_empty() {
         let s = t.remaining();
         let start_offset = t.offset();
-        let cursor = &mut &*s;
 
         for parser in custom_parsers {
+            // Each parser gets its own cursor, so that whatever one which turns out
+            // not to be applicable does to it isn't seen by those that follow.
+            let cursor = &mut &*s;
             if let Some(res) = parser(cursor) {
                 match res {
                     Ok(value) => {
                         // Wind our StrTokens forward to take into account anything that
                         // was consumed. We do this rather than replacing it because we want
                         // to preserve the full string and offsets.
-                        for _ in cursor.len()..s.len() {
+                        while t.remaining().len() > cursor.len() {
                             t.next();
                         }
                         return Ok(value);
-- 
2.43.0


From 3c69c8eabcb27bed902b7400e5f30cb4c81cb8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 08/17] fix: parse variants whose names begin with true or
 false

---
 src/string_impls/from_string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index f629cb2..71d5e40 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -261,6 +261,8 @@ fn parse_value(
     // whether to try the next item, `one_of` expects `Option<T>`, so we transpose_err
     // to convert to the right shape.
     let val = yap::one_of!(t;
+        // Variants come first, because their names may begin with (or be) `true` or `false`.
+        transpose_err(parse_variant(t, custom_parsers).map(|v| v.into())),
         transpose_err(parse_bool(t).map(Value::bool).ok_or(None)),
         transpose_err(parse_char(t).map(Value::char)),
         transpose_err(parse_string(t).map(Value::string)),
@@ -268,7 +270,6 @@ fn parse_value(
         transpose_err(parse_named_composite(t, custom_parsers).map(|v| v.into())),
         transpose_err(parse_unnamed_composite(t, custom_parsers).map(|v| v.into())),
         transpose_err(parse_bit_sequence(t).map(Value::bit_sequence)),
-        transpose_err(parse_variant(t, custom_parsers).map(|v| v.into())),
     );
 
     match val {
-- 
2.43.0


From 19c5edf4f8ca43017870deab044ea141668cfd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 09/17] fix: locate invalid escape codes in chars where they
 are

---
 src/string_impls/from_string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 71d5e40..1ad8e13 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -410,12 +410,13 @@ fn parse_char(t: &mut StrTokens) -> Result<char, Option<ParseError>> {
     // If char is a backslash, it's an escape code and we
     // need to unescape it to find our inner char:
     let char = if char == '\\' {
+        let pos = t.offset();
         let escape_code = match t.next() {
             None => return Err(Some(ParseCharError::ExpectedValidEscapeCode.at_one(t.offset()))),
             Some(c) => c,
         };
         match string_helpers::from_escape_code(escape_code) {
-            None => return Err(Some(ParseCharError::ExpectedValidEscapeCode.at_one(t.offset()))),
+            None => return Err(Some(ParseCharError::ExpectedValidEscapeCode.at_one(pos))),
             Some(c) => c,
         }
     } else {
-- 
2.43.0


From 0a1c7099bccfaeffe155366d2cfa60c72231345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 10/17] fix: deserialize newtype variants from the one value
 they contain

---
 src/serde_impls/deserialize.rs  | 8 ++++----
 src/serde_impls/deserializer.rs | 9 ++++++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/serde_impls/deserialize.rs b/src/serde_impls/deserialize.rs
index d6ad924..191c253 100644
--- a/src/serde_impls/deserialize.rs
+++ b/src/serde_impls/deserialize.rs
@@ -226,10 +226,10 @@ impl<'de> Visitor<'de> for VariantVisitor {
         data.variant().and_then(|(name, variant_access)| {
             use serde::de::VariantAccess;
             // We have to ask for a particular enum type, but we don't know what type
-            // of enum to expect (we support anything!). So, we just call the visitor method
-            // that doesn't require any extra fields, and we know that this will just give back
-            // whatever it can based on our impl (who knows about other impls though).
-            let values = variant_access.newtype_variant()?;
+            // of enum to expect (we support anything!). So, we just ask for a struct variant
+            // with no particular fields, and we know that this will just give back whatever
+            // it can based on our impl (who knows about other impls though).
+            let values = variant_access.struct_variant(&[], CompositeVisitor)?;
             Ok(Variant { name, values })
         })
     }
diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index d25c600..47f1b16 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -570,7 +570,14 @@ impl<'de, T> VariantAccess<'de> for Composite<T> {
     where
         S: de::DeserializeSeed<'de>,
     {
-        seed.deserialize(self)
+        match self {
+            // A newtype variant has exactly one field, which is what is asked for here:
+            Composite::Unnamed(mut values) if values.len() == 1 => {
+                seed.deserialize(values.pop().expect("length checked"))
+            }
+            // Otherwise, take all of the fields together to be the content of the newtype variant:
+            values => seed.deserialize(values),
+        }
     }
 
     fn tuple_variant<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 0b878f9783f040dbc7fe031574a92bfecaf43951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 11/17] fix: offer numbers to any visitor as 64 bit ones if
 they fit

Serde's untagged and internally tagged enums and flattened fields buffer their
content, and refuse 128 bit numbers, however small.
---
 src/serde_impls/deserializer.rs | 35 ++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index 47f1b16..6f37b11 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -760,13 +760,42 @@ impl<'de> Deserializer<'de> for Primitive {
             Primitive::Bool(v) => visitor.visit_bool(v),
             Primitive::Char(v) => visitor.visit_char(v),
             Primitive::String(v) => visitor.visit_string(v),
-            Primitive::U128(v) => visitor.visit_u128(v),
+            // Things which buffer up any value (for instance serde's own support for untagged
+            // enums and flattened fields) cannot handle 128 bit numbers, so hand back 64 bit
+            // ones wherever possible.
+            Primitive::U128(v) => match v.try_into() {
+                Ok(v) => visitor.visit_u64(v),
+                Err(_) => visitor.visit_u128(v),
+            },
             Primitive::U256(v) => visitor.visit_bytes(&v),
-            Primitive::I128(v) => visitor.visit_i128(v),
+            Primitive::I128(v) => match v.try_into() {
+                Ok(v) => visitor.visit_i64(v),
+                Err(_) => visitor.visit_i128(v),
+            },
             Primitive::I256(v) => visitor.visit_bytes(&v),
         }
     }
 
+    // We have no floats, and a 64 bit number may lose precision when turned into one. Floats
+    // are never built from 128 bit numbers, and so those are what we hand back here.
+    fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        match self {
+            Primitive::U128(v) => visitor.visit_u128(v),
+            Primitive::I128(v) => visitor.visit_i128(v),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
+    fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        self.deserialize_f64(visitor)
+    }
+
     // if we're asked to deserialize into some numeric type,
     // we do our best to visit that same type with a value, but
     // if we can't coerce our value to it, we fall back to
@@ -794,7 +823,7 @@ impl<'de> Deserializer<'de> for Primitive {
     }
 
     forward_to_deserialize_any! {
-        bool f32 f64 char str string
+        bool char str string
         bytes byte_buf option unit unit_struct seq tuple
         tuple_struct map struct enum identifier ignored_any
     }
-- 
2.43.0


From dd1c73330f54e0786d41aacd9d959ec02c6e5f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 12/17] fix: refuse to deserialize structs from lists which are
 too long

---
 src/serde_impls/deserializer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index 6f37b11..50f592d 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -419,7 +419,11 @@ impl<'de, T> Deserializer<'de> for Composite<T> {
                 visitor.visit_map(de::value::MapDeserializer::new(values.into_iter()))
             }
             Composite::Unnamed(values) => {
-                visitor.visit_seq(de::value::SeqDeserializer::new(values.into_iter()))
+                let mut seq = de::value::SeqDeserializer::new(values.into_iter());
+                let value = visitor.visit_seq(&mut seq)?;
+                // Complain about values that weren't asked for rather than dropping them:
+                seq.end()?;
+                Ok(value)
             }
         }
     }
-- 
2.43.0


From 848e0d6479a41d14fa4f08d9ac7d521ab554b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 13/17] fix: don't allocate as much as a format claims there
 are values

---
 src/serde_impls/bitvec_helpers.rs | 3 ++-
 src/serde_impls/deserialize.rs    | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/serde_impls/bitvec_helpers.rs b/src/serde_impls/bitvec_helpers.rs
index f3bec60..f906ce2 100644
--- a/src/serde_impls/bitvec_helpers.rs
+++ b/src/serde_impls/bitvec_helpers.rs
@@ -88,7 +88,8 @@ impl<'de> Visitor<'de> for MapOrBitSeqVisitor {
         }
 
         // That didn't work, so decode the first value as a Value<()> instead:
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        // (the size hint may stem from untrusted input, so don't allocate all that it asks for)
+        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0).min(1024));
         values.push((first_key, map.next_value()?));
 
         // .. and then decode all of the other key-value pairs and add them too:
diff --git a/src/serde_impls/deserialize.rs b/src/serde_impls/deserialize.rs
index 191c253..02ce1a2 100644
--- a/src/serde_impls/deserialize.rs
+++ b/src/serde_impls/deserialize.rs
@@ -191,7 +191,8 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut values = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        // The size hint may stem from untrusted input, so don't allocate all that it asks for.
+        let mut values = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(1024));
         while let Some(value) = seq.next_element()? {
             values.push(value);
         }
@@ -202,7 +203,8 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::MapAccess<'de>,
     {
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        // The size hint may stem from untrusted input, so don't allocate all that it asks for.
+        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0).min(1024));
         while let Some(key_val) = map.next_entry()? {
             values.push(key_val);
         }
-- 
2.43.0


From 626f03fa765ac5c85b96b00749bcb763522161ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 14/17] fix: deserialize options from variants that aren't
 wrapped in values

This is what happens when a newtype struct contains an option.
---
 src/serde_impls/deserializer.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index 50f592d..797f5ed 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -376,20 +376,10 @@ impl<'de, T> Deserializer<'de> for ValueDef<T> {
     where
         V: de::Visitor<'de>,
     {
-        // Special handling to turn a variant value of "Some" or "None" into an option.
-        if let ValueDef::Variant(Variant { name, values: Composite::Unnamed(mut vs) }) = self {
-            if name == "Some" && vs.len() == 1 {
-                visitor.visit_some(vs.pop().expect("length checked"))
-            } else if name == "None" && vs.is_empty() {
-                visitor.visit_none()
-            } else {
-                // Reconstruct the variant and try to deserialize without the option hint:
-                ValueDef::Variant(Variant { name, values: Composite::Unnamed(vs) })
-                    .deserialize_any(visitor)
-            }
-        } else {
+        match self {
+            ValueDef::Variant(variant) => variant.deserialize_option(visitor),
             // fall back to deserializing based on the value type if it doesn't look like an Option:
-            self.deserialize_any(visitor)
+            value => value.deserialize_any(visitor),
         }
     }
 
@@ -636,6 +626,21 @@ impl<'de, T> Deserializer<'de> for Variant<T> {
         visitor.visit_seq(de::value::SeqDeserializer::new(Some(self).into_iter()))
     }
 
+    fn deserialize_option<V>(mut self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        // Special handling to turn a variant value of "Some" or "None" into an option.
+        match &mut self.values {
+            Composite::Unnamed(vs) if self.name == "Some" && vs.len() == 1 => {
+                visitor.visit_some(vs.pop().expect("length checked"))
+            }
+            Composite::Unnamed(vs) if self.name == "None" && vs.is_empty() => visitor.visit_none(),
+            // deserialize without the option hint:
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     // All of the below functions delegate to the Composite deserializing methods using the enum values.
 
     fn deserialize_tuple<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
@@ -703,7 +708,7 @@ impl<'de, T> Deserializer<'de> for Variant<T> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option identifier ignored_any
+        bytes byte_buf identifier ignored_any
     }
 }
 
-- 
2.43.0


From 68fc3e1df9dfa3095e370db44c3f6b939e0c3be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 15/17] fix: don't double the attempts at encoding with each
 layer of a composite if these fail

---
 src/scale_impls/encode.rs | 82 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 73 insertions(+), 9 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 26701f6..9ce995a 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -115,12 +115,12 @@ fn encode_composite<T, R: TypeResolver>(
         >(ctx, |(type_id, out, tried_inner), _| {
             match get_only_value_from_composite(value) {
                 // Exactly one value:
-                Some(value) => {
+                Some(value) if !*tried_inner => {
                     *tried_inner = true;
                     value.encode_as_type_to(type_id, types, out)
                 }
-                // Some other number of values:
-                None => Err(Error::new(ErrorKind::WrongShape {
+                // Some other number of values (or we know already that this won't work):
+                _ => Err(Error::new(ErrorKind::WrongShape {
                     actual: Kind::Tuple,
                     expected_id: format!("{:?}", type_id),
                 })),
@@ -130,12 +130,12 @@ fn encode_composite<T, R: TypeResolver>(
         // to encode us to the composite/tuple type, because that skips through _every_ newtype
         // wrapper in the type while unwrapping our Value just once, and so loses track of which
         // of our values belongs to which type if those can be sequences.
-        .visit_composite(|(_, out, _), _, mut fields| {
-            value.encode_as_fields_to(&mut fields, types, out)
+        .visit_composite(|(_, out, tried_inner), _, fields| {
+            encode_composite_fields(value, fields.collect(), types, out, tried_inner)
         })
-        .visit_tuple(|(_, out, _), type_ids| {
-            let mut fields = type_ids.map(Field::unnamed);
-            value.encode_as_fields_to(&mut fields, types, out)
+        .visit_tuple(|(_, out, tried_inner), type_ids| {
+            let fields = type_ids.map(Field::unnamed).collect();
+            encode_composite_fields(value, fields, types, out, tried_inner)
         })
         .visit_sequence(|(_, out, _), _path, type_id| {
             // sequences start with compact encoded length:
@@ -156,13 +156,16 @@ fn encode_composite<T, R: TypeResolver>(
             }
             Ok(())
         })
-        .visit_array(|(_, out, _), type_id, array_len| {
+        .visit_array(|(_, out, tried_inner), type_id, array_len| {
             if value.len() != array_len {
                 return Err(Error::new(ErrorKind::WrongLength {
                     actual_len: value.len(),
                     expected_len: array_len,
                 }));
             }
+            if let Some(only_value) = get_only_value_from_composite(value) {
+                *tried_inner |= also_tries_inner_types(only_value, type_id.clone(), types);
+            }
             for (idx, val) in value.values().enumerate() {
                 val.encode_as_type_to(type_id.clone(), types, out).map_err(|e| e.at_idx(idx))?;
             }
@@ -237,6 +240,67 @@ fn encode_composite<T, R: TypeResolver>(
     Err(original_error)
 }
 
+/// Encode our values to the fields of a composite or tuple type, setting `tried_inner` if there
+/// is no need to try and encode our only value again.
+fn encode_composite_fields<T, R: TypeResolver>(
+    value: &Composite<T>,
+    fields: Vec<Field<'_, R::TypeId>>,
+    types: &R,
+    out: &mut Vec<u8>,
+    tried_inner: &mut bool,
+) -> Result<(), Error> {
+    if let Composite::Named(vals) = value {
+        // If our values will be lined up with the fields by name, and we don't have all of them,
+        // then say so right away rather than encoding any of those that we do have first.
+        if !vals.is_empty() && fields.iter().any(|field| field.name.is_some()) {
+            for name in fields.iter().map(|field| field.name.unwrap_or("")) {
+                if !vals.iter().any(|(val_name, _)| val_name == name) {
+                    return Err(Error::new(ErrorKind::CannotFindField { name: name.to_string() }));
+                }
+            }
+        }
+    }
+
+    if let ([field], Some(only_value)) = (&*fields, get_only_value_from_composite(value)) {
+        *tried_inner |= also_tries_inner_types(only_value, field.id.clone(), types);
+    }
+
+    value.encode_as_fields_to(&mut fields.into_iter(), types, out)
+}
+
+/// Does encoding the only value we have to this type also try to encode it to whatever the type
+/// wraps? If so then there is no need to do that again if it fails; the number of attempts would
+/// otherwise double with each layer.
+fn also_tries_inner_types<T, R: TypeResolver>(
+    only_value: &Value<T>,
+    type_id: R::TypeId,
+    types: &R,
+) -> bool {
+    match &only_value.value {
+        ValueDef::Composite(_) => true,
+        // `scale_encode` skips through composites and tuples with a single field, but not through
+        // arrays with a single entry.
+        ValueDef::Variant(_) => !wraps_array_of_one(type_id, types),
+        // There's nothing inside these, and so the number of attempts doesn't matter.
+        ValueDef::Primitive(_) | ValueDef::BitSequence(_) => false,
+    }
+}
+
+/// Is there an array with a single entry among the newtype wrappers that this type starts with?
+fn wraps_array_of_one<R: TypeResolver>(type_id: R::TypeId, types: &R) -> bool {
+    let visitor = scale_type_resolver::visitor::new((), |_, _| false)
+        .visit_tuple(|_, fields| match (fields.next(), fields.next()) {
+            (Some(ty), None) => wraps_array_of_one(ty, types),
+            _ => false,
+        })
+        .visit_composite(|_, _, fields| match (fields.next(), fields.next()) {
+            (Some(field), None) => wraps_array_of_one(field.id, types),
+            _ => false,
+        })
+        .visit_array(|_, _, len| len == 1);
+    types.resolve_type(type_id, visitor).unwrap_or(false)
+}
+
 /// Skip into the target type past any wrappers which have a single field without a name, and
 /// return the ID of what is there if it is a composite type with named fields.
 fn find_named_fields<R: TypeResolver>(type_id: R::TypeId, types: &R) -> Option<R::TypeId> {
-- 
2.43.0


From 17de2c35397c6ca87fcf487c6afa23d543692d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:05 +0000
Subject: [PATCH 16/17] fix: parse_ss58 panics on text starting with many 1s

---
 src/string_impls/custom_parsers/ss58.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/string_impls/custom_parsers/ss58.rs b/src/string_impls/custom_parsers/ss58.rs
index b373604..1243710 100644
--- a/src/string_impls/custom_parsers/ss58.rs
+++ b/src/string_impls/custom_parsers/ss58.rs
@@ -29,6 +29,7 @@ pub fn parse_ss58(s: &mut &str) -> Option<Result<Value<()>, ParseError>> {
 
 fn parse_ss58_bytes(s: &mut &str) -> Option<Vec<u8>> {
     const CHECKSUM_LEN: usize = 2;
+    const MAX_DECODED_LEN: usize = 132;
 
     // ss58 addresses are base58 encoded. Base58 is all alphanumeric chars
     // minus a few that look potentially similar. So, gather alphanumeric chars
@@ -57,6 +58,13 @@ fn parse_ss58_bytes(s: &mut &str) -> Option<Vec<u8>> {
         return None;
     }
 
+    // `base58` can decode at most `MAX_DECODED_LEN` bytes, and panics if given more leading zeros
+    // (ie "1"s) than it has space for. Each other char adds less than 0.733 bytes.
+    let leading_zeros = maybe_ss58.bytes().take_while(|b| *b == b'1').count();
+    if leading_zeros + (maybe_ss58.len() - leading_zeros) * 733 / 1000 + 1 > MAX_DECODED_LEN {
+        return None;
+    }
+
     // Attempt to base58-decode these chars.
     use base58::FromBase58;
     let Ok(bytes) = maybe_ss58.from_base58() else { return None };
-- 
2.43.0


From 81d157269bb74a27bd31da66a34ac13db3752253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 17/17] fix: encoding named fields looks through all of the
 values for each field

---
 src/scale_impls/encode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 9ce995a..7db56ff 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -15,6 +15,7 @@
 
 use crate::prelude::*;
 use crate::value_type::{Composite, Primitive, Value, ValueDef, Variant};
+use alloc::collections::BTreeSet;
 use codec::{Compact, Encode};
 use scale_bits::Bits;
 use scale_decode::TypeResolver;
@@ -253,8 +254,9 @@ fn encode_composite_fields<T, R: TypeResolver>(
         // If our values will be lined up with the fields by name, and we don't have all of them,
         // then say so right away rather than encoding any of those that we do have first.
         if !vals.is_empty() && fields.iter().any(|field| field.name.is_some()) {
+            let val_names: BTreeSet<&str> = vals.iter().map(|(name, _)| &**name).collect();
             for name in fields.iter().map(|field| field.name.unwrap_or("")) {
-                if !vals.iter().any(|(val_name, _)| val_name == name) {
+                if !val_names.contains(name) {
                     return Err(Error::new(ErrorKind::CannotFindField { name: name.to_string() }));
                 }
             }
-- 
2.43.0

