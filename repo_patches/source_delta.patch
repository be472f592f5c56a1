From 2e9dbb120f99c6a84b5d05e46edf1be30d570039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:20:26 +0000
Subject: [PATCH 01/25] fix: write ASCII strings completely to writers that
 accept partial writes

write_string used Write::write and ignored how many bytes were accepted, so a
writer that takes fewer bytes than offered silently lost part of the string.
---
 src/cursor_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 8fc0c44..8ac6d1f 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -150,8 +150,8 @@ impl<W: Write> WriteExt for W {
             // ASCII strings do not require encoding
             let len = v.len() + 1;
             self.write_i32::<LittleEndian>(len as i32)?;
-            let _ = self.write(v.as_bytes())?;
-            let _ = self.write(&[0u8; 1])?;
+            self.write_all(v.as_bytes())?;
+            self.write_all(&[0u8; 1])?;
             Ok(len * 2 + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
-- 
2.43.0


From c44f20d0ba44e4f23f78d71166949c3a075abded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:20:26 +0000
Subject: [PATCH 02/25] fix: report the number of bytes actually written

The write functions return the size of what they wrote, but ASCII strings
counted two bytes per character, name properties left out their type name,
and gameplay tag containers started from the number of tags instead of the
size of the count field.
---
 src/cursor_ext.rs                 | 2 +-
 src/properties/mod.rs             | 2 +-
 src/properties/struct_property.rs | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 8ac6d1f..f6fbe86 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -152,7 +152,7 @@ impl<W: Write> WriteExt for W {
             self.write_i32::<LittleEndian>(len as i32)?;
             self.write_all(v.as_bytes())?;
             self.write_all(&[0u8; 1])?;
-            Ok(len * 2 + 4)
+            Ok(len + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
             let words: Vec<u16> = v.encode_utf16().collect();
diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 963f515..cd1fcfd 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -330,7 +330,7 @@ macro_rules! impl_write {
             len += self.write_body(buf, options)?;
             let buf = buf.get_ref();
 
-            writer.write_string(stringify!($property))?;
+            len += writer.write_string(stringify!($property))?;
             writer.write_u32::<LittleEndian>(buf.len() as u32)?;
             writer.write_u32::<LittleEndian>(self.array_index)?;
             $(
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 8a59413..4898eb1 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -347,8 +347,8 @@ impl PropertyTrait for StructPropertyValue {
                 Ok(16)
             }
             StructPropertyValue::GameplayTagContainer(tags) => {
-                let mut len = tags.len();
-                cursor.write_i32::<LittleEndian>(len as i32)?;
+                let mut len = 4;
+                cursor.write_i32::<LittleEndian>(tags.len() as i32)?;
                 for gameplaytag in tags {
                     len += cursor.write_string(gameplaytag)?;
                 }
-- 
2.43.0


From c5416925cd17a707d572db42b2eab8ccd9c3539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:05 +0000
Subject: [PATCH 03/25] fix: return an error instead of panicking on malformed
 property headers

Number, boolean, byte and unknown properties asserted that the separator byte
and the array index are zero, and struct arrays asserted the inner type name,
so a malformed file aborted the caller. Report them like other properties do.
---
 src/properties/array_property.rs   |  6 +++++-
 src/properties/int_property.rs     | 32 +++++++++++++++++-------------
 src/properties/unknown_property.rs | 22 +++++++++++---------
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 9977e3e..7b2a51f 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -311,7 +311,11 @@ impl ArrayProperty {
                 let field_name = cursor.read_string()?;
 
                 let property_type = cursor.read_string()?;
-                assert_eq!(property_type, "StructProperty");
+                validate!(
+                    cursor,
+                    property_type == "StructProperty",
+                    "Unexpected array element type {property_type}",
+                );
                 let properties_size = cursor.read_u64::<LittleEndian>()?;
 
                 let struct_name = cursor.read_string()?;
diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index ab4f7e4..8a24f1b 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -28,6 +28,16 @@ macro_rules! check_size {
     };
 }
 
+macro_rules! check_terminator {
+    ($cursor:ident) => {
+        let terminator = $cursor.read_u8()?;
+        if terminator != 0 {
+            let position = $cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(terminator, position))?
+        }
+    };
+}
+
 macro_rules! impl_int_property {
     ($name:ident, $ty:ident, $read_method:ident, $write_method:ident, $size:literal) => {
         #[doc = concat!("A property that stores a `", stringify!($ty), "`.")]
@@ -53,8 +63,7 @@ macro_rules! impl_int_property {
             ) -> Result<Self, Error> {
                 if include_header {
                     check_size!(cursor, $size);
-                    let separator = cursor.read_u8()?;
-                    assert_eq!(separator, 0);
+                    check_terminator!(cursor);
                 }
                 Ok(Self::new(cursor.$read_method::<LittleEndian>()?))
             }
@@ -107,8 +116,7 @@ impl Int8Property {
     ) -> Result<Self, Error> {
         if include_header {
             check_size!(cursor, 1);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_terminator!(cursor);
         }
         Ok(Int8Property {
             value: cursor.read_i8()?,
@@ -193,17 +201,14 @@ impl ByteProperty {
         if include_header {
             let length = cursor.read_u32::<LittleEndian>()?;
             let array_index = cursor.read_u32::<LittleEndian>()?;
-            assert_eq!(
-                array_index,
-                0,
-                "Expected array_index value zero @ {:#x}",
-                cursor.stream_position()? - 4
-            );
+            if array_index != 0 {
+                let position = cursor.stream_position()? - 4;
+                Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+            }
             suggested_length = Some(length);
 
             name = Some(cursor.read_string()?);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_terminator!(cursor);
         }
 
         // -1 to account for separator
@@ -286,8 +291,7 @@ impl BoolProperty {
         }
         let value = cursor.read_bool()?;
         if include_header {
-            let indicator = cursor.read_u8()?;
-            assert_eq!(indicator, 0);
+            check_terminator!(cursor);
         }
         Ok(BoolProperty { value })
     }
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index e7126b7..15640cf 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -2,7 +2,10 @@ use std::io::{Cursor, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
-use crate::{cursor_ext::WriteExt, error::Error};
+use crate::{
+    cursor_ext::WriteExt,
+    error::{DeserializeError, Error},
+};
 
 use super::{PropertyOptions, PropertyTrait};
 
@@ -43,14 +46,15 @@ impl UnknownProperty {
     ) -> Result<Self, Error> {
         let length = cursor.read_u32::<LittleEndian>()?;
         let array_index = cursor.read_u32::<LittleEndian>()?;
-        assert_eq!(
-            array_index,
-            0,
-            "Expected array_index value zero @ {:#x}",
-            cursor.stream_position()? - 4
-        );
-        let separator = cursor.read_u8()?;
-        assert_eq!(separator, 0);
+        if array_index != 0 {
+            let position = cursor.stream_position()? - 4;
+            Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+        }
+        let terminator = cursor.read_u8()?;
+        if terminator != 0 {
+            let position = cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(terminator, position))?
+        }
 
         UnknownProperty::read_with_length(cursor, property_name, length)
     }
-- 
2.43.0


From 7a627b35b6019a70b870b430700d353a0788917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:29 +0000
Subject: [PATCH 04/25] fix: return an error for unsupported text kinds and
 negative counts

Text generators, raw text and gender arguments hit unimplemented!(), and a
negative element count overflowed the capacity of the list. Both panicked
while reading a file.
---
 src/properties/struct_property.rs |  6 ++++++
 src/properties/text_property.rs   | 30 ++++++++++++++++++++++++------
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 4898eb1..c5dbf6e 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -392,6 +392,12 @@ impl StructPropertyValue {
 
     fn read_gameplaytagcontainer<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let len = cursor.read_i32::<LittleEndian>()?;
+        if len < 0 {
+            Err(DeserializeError::invalid_property(
+                format!("negative tag count {len}"),
+                cursor,
+            ))?
+        }
         let mut tags: Vec<String> = Vec::with_capacity(len as usize);
         for _ in 0..len {
             tags.push(cursor.read_string()?);
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index e38b961..766bfdc 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,7 +14,7 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::Error,
+    error::{DeserializeError, Error},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
@@ -170,6 +170,18 @@ pub enum TextHistoryType {
     RawText,
 }
 
+#[inline]
+fn read_argument_count<R: Read + Seek>(cursor: &mut R) -> Result<i32, Error> {
+    let count = cursor.read_i32::<LittleEndian>()?;
+    if count < 0 {
+        Err(DeserializeError::invalid_property(
+            format!("negative argument count {count}"),
+            cursor,
+        ))?
+    }
+    Ok(count)
+}
+
 /// FText history
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", serde_with::skip_serializing_none)]
@@ -331,7 +343,7 @@ impl FTextHistory {
             TextHistoryType::NamedFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
-                let argument_count = cursor.read_i32::<LittleEndian>()?;
+                let argument_count = read_argument_count(cursor)?;
                 let mut arguments = HashableIndexMap::with_capacity(argument_count as usize);
 
                 for _ in 0..argument_count {
@@ -348,7 +360,7 @@ impl FTextHistory {
             TextHistoryType::OrderedFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
-                let count = cursor.read_i32::<LittleEndian>()?;
+                let count = read_argument_count(cursor)?;
                 let mut arguments = Vec::with_capacity(count as usize);
 
                 for _ in 0..count {
@@ -362,7 +374,7 @@ impl FTextHistory {
             }
             TextHistoryType::ArgumentFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
-                let count = cursor.read_i32::<LittleEndian>()?;
+                let count = read_argument_count(cursor)?;
                 let mut arguments = HashableIndexMap::with_capacity(count as usize);
 
                 for _ in 0..count {
@@ -493,7 +505,10 @@ impl FTextHistory {
 
                 FTextHistory::StringTableEntry { table_id, key }
             }
-            _ => unimplemented!("unimplemented history type: {:?}", history_type),
+            _ => Err(DeserializeError::invalid_property(
+                format!("unimplemented history type: {history_type:?}"),
+                cursor,
+            ))?,
         })
     }
 
@@ -779,7 +794,10 @@ impl FormatArgumentValue {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
             FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
-            FormatArgumentType::Gender => unimplemented!(),
+            FormatArgumentType::Gender => Err(DeserializeError::invalid_property(
+                format!("unimplemented argument type: {format_argument_type:?}"),
+                cursor,
+            ))?,
         })
     }
 
-- 
2.43.0


From ae3b7476cbc230a0edd64c5a3677fbaa80da48ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:46 +0000
Subject: [PATCH 05/25] fix: do not allocate from element counts and sizes
 found in the file

A few bytes could declare billions of elements or an enormous raw value, and
reading reserved memory for all of it up front, aborting the process. Grow the
collections as data is actually read. Elements of an unknown type that take no
space are rejected, because any number of them fits in an empty value.
---
 src/lib.rs                            | 2 +-
 src/properties/array_property.rs      | 2 +-
 src/properties/delegate_property.rs   | 2 +-
 src/properties/field_path_property.rs | 2 +-
 src/properties/map_property.rs        | 2 +-
 src/properties/mod.rs                 | 5 ++++-
 src/properties/set_property.rs        | 2 +-
 src/properties/struct_property.rs     | 2 +-
 src/properties/text_property.rs       | 6 +++---
 src/properties/unknown_property.rs    | 9 ++++++---
 10 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c72922a..3d94be0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -221,7 +221,7 @@ impl GvasHeader {
         }
 
         let custom_versions_len = cursor.read_u32::<LittleEndian>()?;
-        let mut custom_versions = HashableIndexMap::with_capacity(custom_versions_len as usize);
+        let mut custom_versions = HashableIndexMap::new();
         for _ in 0..custom_versions_len {
             let FCustomVersion { key, version } = FCustomVersion::read(cursor)?;
             custom_versions.insert(key, version);
diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 7b2a51f..8ce2c65 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -302,7 +302,7 @@ impl ArrayProperty {
         property_type: String,
     ) -> Result<Self, Error> {
         let property_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(property_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         let mut array_struct_info = None;
 
diff --git a/src/properties/delegate_property.rs b/src/properties/delegate_property.rs
index 8f8e0df..5ff49bb 100644
--- a/src/properties/delegate_property.rs
+++ b/src/properties/delegate_property.rs
@@ -105,7 +105,7 @@ impl MulticastScriptDelegate {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let delegates_len = cursor.read_u32::<LittleEndian>()?;
-        let mut delegates = Vec::with_capacity(delegates_len as usize);
+        let mut delegates = Vec::new();
         for _ in 0..delegates_len {
             delegates.push(Delegate::read(cursor)?);
         }
diff --git a/src/properties/field_path_property.rs b/src/properties/field_path_property.rs
index 0579ad1..120bcd5 100644
--- a/src/properties/field_path_property.rs
+++ b/src/properties/field_path_property.rs
@@ -32,7 +32,7 @@ impl FieldPath {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let path_len = cursor.read_u32::<LittleEndian>()?;
-        let mut path = Vec::with_capacity(path_len as usize);
+        let mut path = Vec::new();
         for _ in 0..path_len {
             path.push(cursor.read_string()?);
         }
diff --git a/src/properties/map_property.rs b/src/properties/map_property.rs
index 9ee6bb6..d7c0e36 100644
--- a/src/properties/map_property.rs
+++ b/src/properties/map_property.rs
@@ -465,7 +465,7 @@ impl MapProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
         let element_count = cursor.read_u32::<LittleEndian>()?;
 
-        let mut map = HashableIndexMap::with_capacity(element_count as usize);
+        let mut map = HashableIndexMap::new();
         for _ in 0..element_count {
             let properties_stack = &mut options.properties_stack;
             let key_stack_entry = ScopedStackEntry::new(properties_stack, "Key".to_string());
diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index cd1fcfd..7a5633f 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -608,7 +608,10 @@ impl Property {
                     );
                 }
 
-                if let Some(suggested_length) = suggested_length {
+                // Elements that take no space could repeat without bound
+                if let Some(suggested_length) = suggested_length
+                    && suggested_length > 0
+                {
                     return Ok(UnknownProperty::read_with_length(
                         cursor,
                         value_type.to_string(),
diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index 1bc82db..cc16932 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -62,7 +62,7 @@ impl SetProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
 
         let element_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         if element_count > 0
             && let Some(total_bytes_per_property) = (length - 8).checked_div(element_count)
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index c5dbf6e..58f2e84 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -398,7 +398,7 @@ impl StructPropertyValue {
                 cursor,
             ))?
         }
-        let mut tags: Vec<String> = Vec::with_capacity(len as usize);
+        let mut tags: Vec<String> = Vec::new();
         for _ in 0..len {
             tags.push(cursor.read_string()?);
         }
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 766bfdc..cd6b453 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -344,7 +344,7 @@ impl FTextHistory {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
                 let argument_count = read_argument_count(cursor)?;
-                let mut arguments = HashableIndexMap::with_capacity(argument_count as usize);
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
@@ -361,7 +361,7 @@ impl FTextHistory {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
                 let count = read_argument_count(cursor)?;
-                let mut arguments = Vec::with_capacity(count as usize);
+                let mut arguments = Vec::new();
 
                 for _ in 0..count {
                     arguments.push(FormatArgumentValue::read(cursor, options)?);
@@ -375,7 +375,7 @@ impl FTextHistory {
             TextHistoryType::ArgumentFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
                 let count = read_argument_count(cursor)?;
-                let mut arguments = HashableIndexMap::with_capacity(count as usize);
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index 15640cf..71f1b3c 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -1,4 +1,4 @@
-use std::io::{Cursor, Read, Seek, Write};
+use std::io::{self, Cursor, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
@@ -30,8 +30,11 @@ impl UnknownProperty {
         property_name: String,
         length: u32,
     ) -> Result<Self, Error> {
-        let mut data = vec![0u8; length as usize];
-        cursor.read_exact(&mut data)?;
+        let mut data = Vec::new();
+        cursor.take(length as u64).read_to_end(&mut data)?;
+        if data.len() != length as usize {
+            Err(io::Error::from(io::ErrorKind::UnexpectedEof))?
+        }
 
         Ok(UnknownProperty {
             property_name,
-- 
2.43.0


From 1e8e04fe4a7f7e60fff1bf02a80985dfecffe42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:46 +0000
Subject: [PATCH 06/25] fix: do not underflow on undersized byte and set
 properties

A byte property of size zero, or a set smaller than its two leading fields,
subtracted past zero and panicked in debug builds.
---
 src/properties/int_property.rs | 2 +-
 src/properties/set_property.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 8a24f1b..9904c91 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -212,7 +212,7 @@ impl ByteProperty {
         }
 
         // -1 to account for separator
-        let length = suggested_length.map(|e| e - 1).unwrap_or(1);
+        let length = suggested_length.map(|e| e.saturating_sub(1)).unwrap_or(1);
 
         let value = match length {
             1 | 0 => BytePropertyValue::Byte(cursor.read_u8()?),
diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index cc16932..8e821f5 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -65,7 +65,8 @@ impl SetProperty {
         let mut properties: Vec<Property> = Vec::new();
 
         if element_count > 0
-            && let Some(total_bytes_per_property) = (length - 8).checked_div(element_count)
+            && let Some(total_bytes_per_property) =
+                length.saturating_sub(8).checked_div(element_count)
         {
             for _ in 0..element_count {
                 properties.push(Property::new(
-- 
2.43.0


From 37e76734295471695320f3eb6ada3808fb2ac845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:22:19 +0000
Subject: [PATCH 07/25] fix: reject byte properties whose declared size is
 wrong

Every other property compares the declared size with the size of the value it
read. Byte properties ignored it, so a damaged size was accepted silently and
replaced on the next save.
---
 src/properties/int_property.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 9904c91..037a573 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -211,6 +211,8 @@ impl ByteProperty {
             check_terminator!(cursor);
         }
 
+        let start = cursor.stream_position()?;
+
         // -1 to account for separator
         let length = suggested_length.map(|e| e.saturating_sub(1)).unwrap_or(1);
 
@@ -219,6 +221,18 @@ impl ByteProperty {
             _ => BytePropertyValue::Namespaced(cursor.read_string()?),
         };
 
+        if include_header {
+            let end = cursor.stream_position()?;
+            let length = suggested_length.unwrap_or_default() as u64;
+            if end - start != length {
+                Err(DeserializeError::InvalidValueSize(
+                    length,
+                    end - start,
+                    start,
+                ))?
+            }
+        }
+
         Ok(ByteProperty { name, value })
     }
 }
-- 
2.43.0


From 29c5809bf3be014c9c559d516f9125c830177c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:22:37 +0000
Subject: [PATCH 08/25] fix: return an error when a text argument does not
 match the file version

Writing a 32 bit argument in a file that stores 64 bit arguments, or the other
way around, failed an assertion instead of returning the documented error.
---
 src/properties/text_property.rs | 54 ++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index cd6b453..9e7ee7a 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,7 +14,7 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
@@ -810,45 +810,49 @@ impl FormatArgumentValue {
     ) -> Result<usize, Error> {
         match self {
             FormatArgumentValue::Int(value) => {
-                assert!(
-                    !options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::Int is not compatible with TextFormatArgumentData64bitSupport"
-                );
+                if options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::Int is not compatible with TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::Int)?;
                 cursor.write_i32::<LittleEndian>(*value)?;
                 Ok(5)
             }
             FormatArgumentValue::Int64(value) => {
-                assert!(
-                    options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::Int64 requires TextFormatArgumentData64bitSupport"
-                );
+                if !options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::Int64 requires TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::Int)?;
                 cursor.write_i64::<LittleEndian>(*value)?;
                 Ok(9)
             }
             FormatArgumentValue::UInt(value) => {
-                assert!(
-                    !options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::UInt is not compatible with TextFormatArgumentData64bitSupport"
-                );
+                if options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::UInt is not compatible with TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::UInt)?;
                 cursor.write_u32::<LittleEndian>(*value)?;
                 Ok(5)
             }
             FormatArgumentValue::UInt64(value) => {
-                assert!(
-                    options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::UInt64 requires TextFormatArgumentData64bitSupport"
-                );
+                if !options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::UInt64 requires TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::UInt)?;
                 cursor.write_u64::<LittleEndian>(*value)?;
                 Ok(9)
-- 
2.43.0


From 094a1dfa485017fe10f24b197feb9dd927b5874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:22:37 +0000
Subject: [PATCH 09/25] fix: implement write_body for boolean properties

It was unimplemented and panicked, while every other property writes the same
bytes as write without a header.
---
 src/properties/int_property.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 037a573..91952bc 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -340,8 +340,14 @@ impl PropertyTrait for BoolProperty {
         Ok(len)
     }
 
-    fn write_body<W: Write>(&self, _: &mut W, _: &mut PropertyOptions) -> Result<usize, Error> {
-        unimplemented!()
+    #[inline]
+    fn write_body<W: Write>(
+        &self,
+        cursor: &mut W,
+        _: &mut PropertyOptions,
+    ) -> Result<usize, Error> {
+        cursor.write_bool(self.value)?;
+        Ok(1)
     }
 }
 
-- 
2.43.0


From c97970d47c2d209714eee58be02d4b39a778de6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:20 +0000
Subject: [PATCH 10/25] fix: refuse to write enum and byte properties without
 their type name

The header stored a null string in its place, which the reader rejects, so the
saved file could not be opened again.
---
 src/properties/enum_property.rs | 14 ++++++++++++--
 src/properties/int_property.rs  | 10 ++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/properties/enum_property.rs b/src/properties/enum_property.rs
index 33693f6..c1c059c 100644
--- a/src/properties/enum_property.rs
+++ b/src/properties/enum_property.rs
@@ -4,7 +4,7 @@ use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::Error,
+    error::{Error, SerializeError},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read_header, impl_write, impl_write_header_part};
@@ -39,6 +39,16 @@ impl EnumProperty {
         }
     }
 
+    #[inline]
+    fn get_enum_type(&self) -> Result<&str, Error> {
+        match &self.enum_type {
+            Some(enum_type) => Ok(enum_type),
+            None => Err(SerializeError::invalid_value(
+                "EnumProperty requires enum_type when serialized with a header",
+            ))?,
+        }
+    }
+
     impl_read_header!(enum_type);
 
     #[inline]
@@ -50,7 +60,7 @@ impl EnumProperty {
 }
 
 impl PropertyTrait for EnumProperty {
-    impl_write!(EnumProperty, (write_fstring, enum_type));
+    impl_write!(EnumProperty, (write_string, fn, get_enum_type));
 
     #[inline]
     fn write_body<W: Write>(
diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 91952bc..573a571 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -12,7 +12,7 @@ use super::{
 };
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
 };
 
 macro_rules! check_size {
@@ -249,6 +249,12 @@ impl PropertyTrait for ByteProperty {
             return self.write_body(cursor, options);
         }
 
+        let Some(name) = &self.name else {
+            Err(SerializeError::invalid_value(
+                "ByteProperty requires name when serialized with a header",
+            ))?
+        };
+
         let mut len = 9;
         len += cursor.write_string("ByteProperty")?;
 
@@ -257,7 +263,7 @@ impl PropertyTrait for ByteProperty {
         let buf = buf.get_ref();
 
         cursor.write_u64::<LittleEndian>(buf.len() as u64)?;
-        len += cursor.write_fstring(self.name.as_deref())?;
+        len += cursor.write_string(name)?;
         cursor.write_u8(0)?;
         cursor.write_all(buf)?;
 
-- 
2.43.0


From d30bd92a93f8618ca2b1e569d8a3cb6da0eb65d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:41 +0000
Subject: [PATCH 11/25] fix: refuse to drop a culture invariant string the file
 cannot store

In files older than culture invariant text the string was left out without an
error, so the text came back empty.
---
 src/properties/text_property.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 9e7ee7a..79297eb 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -535,15 +535,17 @@ impl FTextHistory {
             FTextHistory::None {
                 culture_invariant_string,
             } => {
-                let mut len = 1;
-                cursor.write_enum(TextHistoryType::None)?;
-                if options.supports_version(
+                if !options.supports_version(
                     FEditorObjectVersion::CultureInvariantTextSerializationKeyStability,
                 ) {
-                    len += 4;
-                    cursor.write_b32(true)?;
-                    len += cursor.write_fstring(culture_invariant_string.as_deref())?;
+                    Err(SerializeError::invalid_value(
+                        "FTextHistory::None requires CultureInvariantTextSerializationKeyStability, use FTextHistory::Empty",
+                    ))?
                 }
+                let mut len = 5;
+                cursor.write_enum(TextHistoryType::None)?;
+                cursor.write_b32(true)?;
+                len += cursor.write_fstring(culture_invariant_string.as_deref())?;
                 Ok(len)
             }
 
-- 
2.43.0


From 677ecb4a1d66c76950ed88fb368a6d8a081282d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:43 +0000
Subject: [PATCH 12/25] fix: refuse to write a property named None

That name ends the list of properties, so everything after it was lost when
the file was read again.
---
 src/lib.rs                        | 7 ++++++-
 src/properties/struct_property.rs | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3d94be0..f0b680b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -98,7 +98,7 @@ use crate::{
     cursor_ext::{ReadExt, WriteExt},
     custom_version::FCustomVersion,
     engine_version::FEngineVersion,
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
     game_version::{DeserializedGameVersion, GameVersion, PLZ_MAGIC, PalworldCompressionType},
     object_version::EUnrealEngineObjectUE5Version,
     ord_ext::OrdExt,
@@ -526,6 +526,11 @@ impl GvasFile {
         };
 
         for (name, property) in &self.properties {
+            if name == "None" {
+                Err(SerializeError::invalid_value(
+                    "\"None\" marks the end of the properties and can not be a property name",
+                ))?
+            }
             writing_cursor.write_string(name)?;
             property.write(&mut writing_cursor, true, &mut options)?;
         }
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 58f2e84..c469be8 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -357,6 +357,10 @@ impl PropertyTrait for StructPropertyValue {
             StructPropertyValue::CustomStruct(properties) => {
                 let mut len = 0;
                 for (key, values) in properties {
+                    validate!(
+                        key != "None",
+                        "\"None\" marks the end of the struct and can not be a property name",
+                    );
                     for value in values {
                         len += cursor.write_string(key)?;
                         len += value.write(cursor, true, options)?;
-- 
2.43.0


From 46615a89db94b4770315b2d61088258111ea8c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:44 +0000
Subject: [PATCH 13/25] fix: refuse to write strings longer than the reader
 accepts

Such a string produced a file that fails to load with an invalid string size.
---
 src/cursor_ext.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index f6fbe86..a3fd9d7 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -3,10 +3,13 @@ use std::io::{Read, Seek, Write};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
 use crate::{
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
     types::Guid,
 };
 
+/// Longest supported string, including the terminator.
+const MAX_STRING_LENGTH: i32 = 131072;
+
 /// Extensions for `Read`.
 pub trait ReadExt {
     /// Reads a GVAS string.
@@ -58,7 +61,7 @@ impl<R: Read + Seek> ReadExt for R {
         let start_position = self.stream_position()?;
         let len = self.read_i32::<LittleEndian>()?;
 
-        if !(-131072..=131072).contains(&len) {
+        if !(-MAX_STRING_LENGTH..=MAX_STRING_LENGTH).contains(&len) {
             Err(DeserializeError::InvalidString(len, start_position))?
         } else if len == 0 {
             Ok(None)
@@ -142,6 +145,15 @@ impl<R: Read + Seek> ReadExt for R {
     }
 }
 
+fn check_string_length(len: usize) -> Result<(), Error> {
+    if len > MAX_STRING_LENGTH as usize {
+        Err(SerializeError::invalid_value(format!(
+            "String length {len} is greater than {MAX_STRING_LENGTH}"
+        )))?
+    }
+    Ok(())
+}
+
 impl<W: Write> WriteExt for W {
     #[inline]
     fn write_string<T: AsRef<str>>(&mut self, v: T) -> Result<usize, Error> {
@@ -149,6 +161,7 @@ impl<W: Write> WriteExt for W {
         if v.is_ascii() {
             // ASCII strings do not require encoding
             let len = v.len() + 1;
+            check_string_length(len)?;
             self.write_i32::<LittleEndian>(len as i32)?;
             self.write_all(v.as_bytes())?;
             self.write_all(&[0u8; 1])?;
@@ -157,6 +170,7 @@ impl<W: Write> WriteExt for W {
             // Perform UTF-16 encoding when non-ASCII characters are detected
             let words: Vec<u16> = v.encode_utf16().collect();
             let len = words.len() + 1;
+            check_string_length(len)?;
             self.write_i32::<LittleEndian>(-(len as i32))?;
             for word in words {
                 self.write_u16::<LittleEndian>(word)?;
-- 
2.43.0


From 3b20043ae6602752ba0011623bd17d5462535ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:24:20 +0000
Subject: [PATCH 14/25] fix: reject guid text with anything but hexadecimal
 digits

A 32 byte string with multi-byte characters panicked on a character boundary,
and a plus sign was accepted in place of a digit.
---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 22705f4..677d0dd 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -174,7 +174,7 @@ impl FromStr for Guid {
             return Ok(Guid([0u8; 16]));
         }
 
-        if cleaned.len() != 32 {
+        if cleaned.len() != 32 || !cleaned.bytes().all(|b| b.is_ascii_hexdigit()) {
             Err(ParseGuidError)?;
         }
         let mut guid = Guid(Default::default());
-- 
2.43.0


From b5b2901c02ea68c4fd3b163a574c2a9a7127acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:24:22 +0000
Subject: [PATCH 15/25] fix: make equal maps hash equally

Two maps with the same entries in a different order compare equal but hashed
differently, so a struct or map used as a map key could be found or missed
depending on the order of its fields.
---
 src/types.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 677d0dd..95bc83f 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -211,7 +211,7 @@ impl<'de> serde::Deserialize<'de> for Guid {
 pub mod map {
     use std::{
         fmt::Debug,
-        hash::Hash,
+        hash::{DefaultHasher, Hash, Hasher},
         ops::{Deref, DerefMut},
     };
 
@@ -248,11 +248,16 @@ pub mod map {
         K: Hash + Eq,
         V: Hash,
     {
-        fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-            for (key, value) in &self.0 {
-                key.hash(state);
-                value.hash(state);
+        fn hash<H: Hasher>(&self, state: &mut H) {
+            // Equality ignores the order of entries, so the hash has to as well.
+            let mut sum = 0u64;
+            for entry in &self.0 {
+                let mut hasher = DefaultHasher::new();
+                entry.hash(&mut hasher);
+                sum = sum.wrapping_add(hasher.finish());
             }
+            state.write_usize(self.0.len());
+            state.write_u64(sum);
         }
     }
 
-- 
2.43.0


From 59899db405507e8ed112d073f6ddec4fe8031a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:24:44 +0000
Subject: [PATCH 16/25] fix: store the right compressed length in Palworld
 saves

The field counted the four bytes of magic and compression type as well, and for
doubly compressed saves it described the outer stream instead of the inner one,
so the value never matched the one the game stores. The outer stream was also
finished while being dropped, which discarded write errors.
---
 src/lib.rs | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f0b680b..983b6d5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,7 +82,7 @@ pub(crate) mod scoped_stack_entry;
 /// Various types.
 pub mod types;
 
-use std::io::{Cursor, SeekFrom};
+use std::io::Cursor;
 use std::{
     collections::HashMap,
     fmt::Debug,
@@ -541,36 +541,34 @@ impl GvasFile {
             DeserializedGameVersion::Default => cursor.write_all(&writing_cursor.into_inner())?,
             DeserializedGameVersion::Palworld(compression_type) => {
                 let decompressed = writing_cursor.into_inner();
+                let decompressed_length = decompressed.len();
 
-                cursor.write_u32::<LittleEndian>(decompressed.len() as u32)?;
-                let compressed_length_pos = cursor.stream_position()?;
-                cursor.write_u32::<LittleEndian>(0)?; // Compressed length placeholder, will be updated later
-                cursor.write_all(PLZ_MAGIC)?;
-                cursor.write_enum(compression_type)?;
-
-                // Compress and write data directly to the output cursor
-                match compression_type {
-                    PalworldCompressionType::None => cursor.write_all(&decompressed)?,
+                // The compressed length is the size of the data after the first compression pass
+                let (compressed_length, data) = match compression_type {
+                    PalworldCompressionType::None => (decompressed_length, decompressed),
                     PalworldCompressionType::Zlib => {
-                        let mut encoder = ZlibEncoder::new(cursor.by_ref(), Compression::new(6));
-                        encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        let data = zlib_compress(&decompressed)?;
+                        (data.len(), data)
                     }
                     PalworldCompressionType::ZlibTwice => {
-                        let encoder = ZlibEncoder::new(cursor.by_ref(), Compression::default());
-                        let mut encoder = ZlibEncoder::new(encoder, Compression::default());
-                        encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        let data = zlib_compress(&decompressed)?;
+                        (data.len(), zlib_compress(&data)?)
                     }
-                }
+                };
 
-                // Update compressed length
-                let end_pos = cursor.stream_position()?;
-                cursor.seek(SeekFrom::Start(compressed_length_pos))?;
-                cursor.write_u32::<LittleEndian>((end_pos - (compressed_length_pos + 4)) as u32)?;
-                cursor.seek(SeekFrom::Start(end_pos))?;
+                cursor.write_u32::<LittleEndian>(decompressed_length as u32)?;
+                cursor.write_u32::<LittleEndian>(compressed_length as u32)?;
+                cursor.write_all(PLZ_MAGIC)?;
+                cursor.write_enum(compression_type)?;
+                cursor.write_all(&data)?;
             }
         }
         Ok(())
     }
 }
+
+fn zlib_compress(data: &[u8]) -> Result<Vec<u8>, Error> {
+    let mut encoder = ZlibEncoder::new(Vec::new(), Compression::default());
+    encoder.write_all(data)?;
+    Ok(encoder.finish()?)
+}
-- 
2.43.0


From 2ffc51f40aee911893f181bf79a47a1d53af0c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:25:27 +0000
Subject: [PATCH 17/25] fix: verify the length and checksum of Palworld saves

Singly compressed saves stopped reading right before the zlib checksum, so
damaged data was returned as if it were good, and doubly compressed saves
ignored the stored length, so a truncated stream was not noticed. Reserving
the stored length up front also let a tiny file request 4 GiB.
---
 src/lib.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 983b6d5..47f2980 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -430,31 +430,32 @@ impl GvasFile {
 
                 deserialized_game_version = DeserializedGameVersion::Palworld(compression_type);
 
+                let mut data = Vec::new();
                 match compression_type {
                     PalworldCompressionType::None => {
-                        let mut data = vec![0u8; decompresed_length as usize];
-
-                        cursor.read_exact(&mut data)?;
-                        Cursor::new(data)
+                        cursor
+                            .take(decompresed_length as u64)
+                            .read_to_end(&mut data)?;
                     }
                     PalworldCompressionType::Zlib => {
-                        let mut zlib_data = vec![0u8; decompresed_length as usize];
-
-                        let mut decoder = ZlibDecoder::new(cursor);
-                        decoder.read_exact(&mut zlib_data)?;
-
-                        Cursor::new(zlib_data)
+                        // Read up to the end of the stream to verify its checksum
+                        ZlibDecoder::new(cursor).read_to_end(&mut data)?;
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let decoder = ZlibDecoder::new(cursor);
-                        let mut decoder = ZlibDecoder::new(decoder);
-
-                        let mut zlib_data = Vec::new();
-                        decoder.read_to_end(&mut zlib_data)?;
-
-                        Cursor::new(zlib_data)
+                        ZlibDecoder::new(decoder).read_to_end(&mut data)?;
                     }
                 }
+                if data.len() != decompresed_length as usize {
+                    Err(DeserializeError::InvalidHeader(
+                        format!(
+                            "Decompressed length {} does not match the expected {decompresed_length}",
+                            data.len()
+                        )
+                        .into_boxed_str(),
+                    ))?
+                }
+                Cursor::new(data)
             }
         };
 
-- 
2.43.0


From 38dce7c9f736bbdce3fffbea390d4ca4ae0b5146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:26:20 +0000
Subject: [PATCH 18/25] fix: do not panic in debug builds on sparse or repeated
 struct fields

Fields of a struct that repeat, or a static array that does not start at index
zero, failed an assertion in debug builds although every value and its index
is kept. Release builds already read and wrote such files unchanged.
---
 src/properties/struct_property.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index c469be8..055e603 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -11,7 +11,7 @@ use crate::{
     cursor_ext::{ReadExt, WriteExt},
     custom_version::FUE5ReleaseStreamObjectVersion,
     error::{DeserializeError, Error, SerializeError},
-    properties::{name_property::NameProperty, struct_types::LinearColor},
+    properties::struct_types::LinearColor,
     scoped_stack_entry::ScopedStackEntry,
     types::{Guid, map::HashableIndexMap},
 };
@@ -183,18 +183,6 @@ impl StructProperty {
 
 fn insert_property(map: &mut IndexMap<String, Vec<Property>>, key: String, property: Property) {
     let entry = map.entry(key).or_default();
-    #[cfg(debug_assertions)]
-    {
-        let array_index = match property {
-            // TODO: Move array_index to the Property layer
-            Property::NameProperty(NameProperty { array_index, .. }) => array_index,
-            _ => 0,
-        };
-        let actual_array_index = entry.len() as u32;
-        // Ensure that the position in the array matches the array_index value,
-        // otherwise this conversion would cause data loss.
-        assert_eq!(actual_array_index, array_index);
-    }
     entry.push(property);
 }
 
-- 
2.43.0


From fa3d4ed8f2d315fd5ffbf06026aebfe742facc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:09 +0000
Subject: [PATCH 19/25] fix: limit how deeply properties and texts can be
 nested

A small malformed file could nest structs, arrays or texts deeply enough to
exhaust the stack, which aborts the process. Return an error instead.
---
 src/properties/mod.rs           | 10 +++++++
 src/properties/text_property.rs | 51 ++++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 7a5633f..1a54772 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -433,6 +433,10 @@ macro_rules! make_matcher {
 
 pub(crate) use make_matcher;
 
+/// Limits how deeply properties and texts can be nested, so that a malformed file can not exhaust
+/// the stack. Each nested struct, array or text adds two entries to the property path.
+pub(crate) const MAX_NESTING: usize = 128;
+
 /// Property options used for reading and writing.
 pub struct PropertyOptions<'a> {
     /// Hints about property types.
@@ -556,6 +560,12 @@ impl Property {
         options: &mut PropertyOptions,
         suggested_length: Option<u32>,
     ) -> Result<Self, Error> {
+        if options.properties_stack.len() >= MAX_NESTING {
+            Err(DeserializeError::invalid_property(
+                "Properties are nested too deeply",
+                cursor,
+            ))?
+        }
         let _stack_entry = ScopedStackEntry::new(options.properties_stack, value_type.to_string());
         match value_type {
             "Int8Property" => Ok(Int8Property::read(cursor, include_header)?.into()),
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 79297eb..3e43080 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -17,7 +17,7 @@ use crate::{
     error::{DeserializeError, Error, SerializeError},
 };
 
-use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
+use super::{MAX_NESTING, PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
 
 /// A property that stores GVAS Text.
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -113,8 +113,22 @@ impl FText {
     /// Read [`FText`] from a cursor
     #[inline]
     pub fn read<R: Read + Seek>(cursor: &mut R, options: &PropertyOptions) -> Result<Self, Error> {
+        Self::read_nested(cursor, options, options.properties_stack.len())
+    }
+
+    fn read_nested<R: Read + Seek>(
+        cursor: &mut R,
+        options: &PropertyOptions,
+        nesting: usize,
+    ) -> Result<Self, Error> {
+        if nesting >= MAX_NESTING {
+            Err(DeserializeError::invalid_property(
+                "Texts are nested too deeply",
+                cursor,
+            ))?
+        }
         let flags = cursor.read_u32::<LittleEndian>()?;
-        let history = FTextHistory::read(cursor, options)?;
+        let history = FTextHistory::read_nested(cursor, options, nesting)?;
 
         Ok(FText { flags, history })
     }
@@ -309,6 +323,14 @@ impl FTextHistory {
     /// Read [`FTextHistory`] from a cursor
     #[inline]
     pub fn read<R: Read + Seek>(cursor: &mut R, options: &PropertyOptions) -> Result<Self, Error> {
+        Self::read_nested(cursor, options, options.properties_stack.len())
+    }
+
+    fn read_nested<R: Read + Seek>(
+        cursor: &mut R,
+        options: &PropertyOptions,
+        nesting: usize,
+    ) -> Result<Self, Error> {
         let history_type = cursor.read_enum()?;
 
         Ok(match history_type {
@@ -341,14 +363,14 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::NamedFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, nesting + 2)?);
 
                 let argument_count = read_argument_count(cursor)?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
-                    let value = FormatArgumentValue::read(cursor, options)?;
+                    let value = FormatArgumentValue::read(cursor, options, nesting)?;
                     arguments.insert(key, value);
                 }
 
@@ -358,13 +380,13 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::OrderedFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, nesting + 2)?);
 
                 let count = read_argument_count(cursor)?;
                 let mut arguments = Vec::new();
 
                 for _ in 0..count {
-                    arguments.push(FormatArgumentValue::read(cursor, options)?);
+                    arguments.push(FormatArgumentValue::read(cursor, options, nesting)?);
                 }
 
                 FTextHistory::OrderedFormat {
@@ -373,13 +395,13 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::ArgumentFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, nesting + 2)?);
                 let count = read_argument_count(cursor)?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
-                    let value = FormatArgumentValue::read(cursor, options)?;
+                    let value = FormatArgumentValue::read(cursor, options, nesting)?;
                     arguments.insert(key, value);
                 }
 
@@ -389,7 +411,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::AsNumber => {
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, nesting)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -407,7 +429,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::AsPercent => {
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, nesting)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -427,7 +449,7 @@ impl FTextHistory {
             TextHistoryType::AsCurrency => {
                 let currency_code = cursor.read_fstring()?;
 
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, nesting)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -491,7 +513,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::Transform => {
-                let source_text = Box::new(FText::read(cursor, options)?);
+                let source_text = Box::new(FText::read_nested(cursor, options, nesting + 2)?);
                 let transform_type = cursor.read_enum()?;
 
                 FTextHistory::Transform {
@@ -773,6 +795,7 @@ impl FormatArgumentValue {
     pub(crate) fn read<R: Read + Seek>(
         cursor: &mut R,
         options: &PropertyOptions,
+        nesting: usize,
     ) -> Result<Self, Error> {
         let format_argument_type = cursor.read_enum()?;
 
@@ -795,7 +818,9 @@ impl FormatArgumentValue {
             FormatArgumentType::Double => {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
-            FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
+            FormatArgumentType::Text => {
+                FormatArgumentValue::Text(FText::read_nested(cursor, options, nesting + 2)?)
+            }
             FormatArgumentType::Gender => Err(DeserializeError::invalid_property(
                 format!("unimplemented argument type: {format_argument_type:?}"),
                 cursor,
-- 
2.43.0


From 8ff8fc042d00657845563c26c440ea58310d4e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:01 +0000
Subject: [PATCH 20/25] fix: stop decompressing Palworld saves past their
 declared length

A small compressed file could expand without bound in memory.
---
 src/lib.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 47f2980..f46d08f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -431,6 +431,8 @@ impl GvasFile {
                 deserialized_game_version = DeserializedGameVersion::Palworld(compression_type);
 
                 let mut data = Vec::new();
+                // Read past the expected length to detect longer streams and verify the checksum
+                let limit = decompresed_length as u64 + 1;
                 match compression_type {
                     PalworldCompressionType::None => {
                         cursor
@@ -438,21 +440,20 @@ impl GvasFile {
                             .read_to_end(&mut data)?;
                     }
                     PalworldCompressionType::Zlib => {
-                        // Read up to the end of the stream to verify its checksum
-                        ZlibDecoder::new(cursor).read_to_end(&mut data)?;
+                        ZlibDecoder::new(cursor)
+                            .take(limit)
+                            .read_to_end(&mut data)?;
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let decoder = ZlibDecoder::new(cursor);
-                        ZlibDecoder::new(decoder).read_to_end(&mut data)?;
+                        ZlibDecoder::new(decoder)
+                            .take(limit)
+                            .read_to_end(&mut data)?;
                     }
                 }
                 if data.len() != decompresed_length as usize {
                     Err(DeserializeError::InvalidHeader(
-                        format!(
-                            "Decompressed length {} does not match the expected {decompresed_length}",
-                            data.len()
-                        )
-                        .into_boxed_str(),
+                        format!("Decompressed length is not {decompresed_length}").into_boxed_str(),
                     ))?
                 }
                 Cursor::new(data)
-- 
2.43.0


From 8c918e8caa834b269c4737f1a3a990d579886488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:15 +0000
Subject: [PATCH 21/25] fix: do not keep a raw pointer to the property path
 while reading

Reading a property pushed its name onto the path and kept a raw pointer to the
path to remove the name again later. The path was used through the options in
between, so that the pointer was no longer valid when it was used. Reading any
file with nested properties was undefined behaviour.

The guard now holds the options themselves and gives access to them until it
goes out of scope.
---
 src/properties/map_property.rs    | 10 +++-----
 src/properties/mod.rs             |  2 +-
 src/properties/struct_property.rs |  3 +--
 src/scoped_stack_entry.rs         | 41 +++++++++++++++++++++----------
 4 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/properties/map_property.rs b/src/properties/map_property.rs
index d7c0e36..4395f1e 100644
--- a/src/properties/map_property.rs
+++ b/src/properties/map_property.rs
@@ -467,14 +467,12 @@ impl MapProperty {
 
         let mut map = HashableIndexMap::new();
         for _ in 0..element_count {
-            let properties_stack = &mut options.properties_stack;
-            let key_stack_entry = ScopedStackEntry::new(properties_stack, "Key".to_string());
-            let key = Property::new(cursor, &key_type, false, options, None)?;
+            let mut key_stack_entry = ScopedStackEntry::new(options, "Key".to_string());
+            let key = Property::new(cursor, &key_type, false, &mut key_stack_entry, None)?;
             drop(key_stack_entry);
 
-            let properties_stack = &mut options.properties_stack;
-            let value_stack_entry = ScopedStackEntry::new(properties_stack, "Value".to_string());
-            let value = Property::new(cursor, &value_type, false, options, None)?;
+            let mut value_stack_entry = ScopedStackEntry::new(options, "Value".to_string());
+            let value = Property::new(cursor, &value_type, false, &mut value_stack_entry, None)?;
             drop(value_stack_entry);
 
             map.insert(key, value);
diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 1a54772..bd6c3f7 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -566,7 +566,7 @@ impl Property {
                 cursor,
             ))?
         }
-        let _stack_entry = ScopedStackEntry::new(options.properties_stack, value_type.to_string());
+        let options = &mut ScopedStackEntry::new(options, value_type.to_string());
         match value_type {
             "Int8Property" => Ok(Int8Property::read(cursor, include_header)?.into()),
             "ByteProperty" => {
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 055e603..8f47991 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -373,8 +373,7 @@ impl StructPropertyValue {
                 break;
             }
             let property_type = cursor.read_string()?;
-            let _property_stack_entry =
-                ScopedStackEntry::new(options.properties_stack, property_name.clone());
+            let options = &mut ScopedStackEntry::new(options, property_name.clone());
 
             let property = Property::new(cursor, &property_type, true, options, None)?;
             insert_property(&mut properties, property_name, property);
diff --git a/src/scoped_stack_entry.rs b/src/scoped_stack_entry.rs
index 414317d..a41518b 100644
--- a/src/scoped_stack_entry.rs
+++ b/src/scoped_stack_entry.rs
@@ -1,22 +1,37 @@
-pub(crate) struct ScopedStackEntry<T> {
-    stack: *mut Vec<T>,
+use std::ops::{Deref, DerefMut};
+
+use crate::properties::PropertyOptions;
+
+pub(crate) struct ScopedStackEntry<'a, 'b> {
+    options: &'a mut PropertyOptions<'b>,
 }
 
-/// This struct adds an entry to a Vec on creation and removes an entry when going out of scope
-impl<T> ScopedStackEntry<T> {
+/// This struct adds an entry to the properties stack on creation and removes an entry when going
+/// out of scope. The options are used through it meanwhile.
+impl<'a, 'b> ScopedStackEntry<'a, 'b> {
     /// Create new instance of ScopedStackEntry
-    pub(crate) fn new(stack: &mut Vec<T>, value: T) -> Self {
-        stack.push(value);
-        Self {
-            stack: stack as *mut Vec<T>,
-        }
+    pub(crate) fn new(options: &'a mut PropertyOptions<'b>, value: String) -> Self {
+        options.properties_stack.push(value);
+        Self { options }
+    }
+}
+
+impl<'b> Deref for ScopedStackEntry<'_, 'b> {
+    type Target = PropertyOptions<'b>;
+
+    fn deref(&self) -> &Self::Target {
+        self.options
+    }
+}
+
+impl DerefMut for ScopedStackEntry<'_, '_> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        self.options
     }
 }
 
-impl<T> Drop for ScopedStackEntry<T> {
+impl Drop for ScopedStackEntry<'_, '_> {
     fn drop(&mut self) {
-        if let Some(stack) = unsafe { self.stack.as_mut() } {
-            stack.pop();
-        }
+        self.options.properties_stack.pop();
     }
 }
-- 
2.43.0


From 409ea3dffa8a49f24aa3874b8b57d73fbdded35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:20 +0000
Subject: [PATCH 22/25] fix: refuse to save versions that can not be read

---
 src/lib.rs | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f46d08f..bc47743 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -267,6 +267,7 @@ impl GvasHeader {
     /// # Ok::<(), Error>(())
     /// ```
     pub fn write<W: Write>(&self, cursor: &mut W) -> Result<usize, Error> {
+        self.check_versions()?;
         cursor.write_u32::<LittleEndian>(FILE_TYPE_GVAS)?;
         match self {
             GvasHeader::Version2 {
@@ -313,6 +314,48 @@ impl GvasHeader {
         }
     }
 
+    /// Refuse versions that can not be read again
+    fn check_versions(&self) -> Result<(), Error> {
+        let (package_file_version, package_file_version_ue5, custom_version_format) = match self {
+            GvasHeader::Version2 {
+                package_file_version,
+                custom_version_format,
+                ..
+            } => (package_file_version, None, custom_version_format),
+            GvasHeader::Version3 {
+                package_file_version,
+                package_file_version_ue5,
+                custom_version_format,
+                ..
+            } => (
+                package_file_version,
+                Some(package_file_version_ue5),
+                custom_version_format,
+            ),
+        };
+        if !package_file_version.between(0x205, 0x20D) {
+            Err(SerializeError::invalid_value(format!(
+                "Package file version {package_file_version} not supported"
+            )))?
+        }
+        if let Some(version) = package_file_version_ue5
+            && !version.between(
+                EUnrealEngineObjectUE5Version::InitialVersion as u32,
+                EUnrealEngineObjectUE5Version::DataResources as u32,
+            )
+        {
+            Err(SerializeError::invalid_value(format!(
+                "UE5 Package file version {version} is not supported"
+            )))?
+        }
+        if *custom_version_format != 3 {
+            Err(SerializeError::invalid_value(format!(
+                "Custom version format {custom_version_format} not supported"
+            )))?
+        }
+        Ok(())
+    }
+
     /// Get custom versions from this header
     pub fn get_custom_versions(&self) -> &HashableIndexMap<Guid, u32> {
         match self {
-- 
2.43.0


From ecc04deca24260d9054f6ea78182025ab610ddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:22 +0000
Subject: [PATCH 23/25] fix: refuse to save a struct under the name of another
 type

---
 src/properties/array_property.rs  |  3 +++
 src/properties/struct_property.rs | 38 +++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 8ce2c65..964cc0d 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -449,6 +449,9 @@ impl PropertyTrait for ArrayProperty {
                 guid,
                 structs,
             } => {
+                for property in structs {
+                    property.check_type(type_name)?;
+                }
                 let mut len = 29;
                 cursor.write_u32::<LittleEndian>(structs.len() as u32)?;
                 len += cursor.write_string(field_name)?;
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 8f47991..54b093a 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -199,6 +199,7 @@ impl PropertyTrait for StructProperty {
         cursor: &mut W,
         options: &mut PropertyOptions,
     ) -> Result<usize, Error> {
+        self.value.check_type(&self.type_name)?;
         self.value.write_body(cursor, options)
     }
 }
@@ -362,6 +363,43 @@ impl PropertyTrait for StructPropertyValue {
 }
 
 impl StructPropertyValue {
+    /// Refuse a type name under which this value would be read as something else
+    pub(crate) fn check_type(&self, type_name: &str) -> Result<(), Error> {
+        let matches = match self {
+            StructPropertyValue::Vector2F(_) | StructPropertyValue::Vector2D(_) => {
+                type_name == "Vector2D"
+            }
+            StructPropertyValue::VectorF(_) | StructPropertyValue::VectorD(_) => {
+                type_name == "Vector"
+            }
+            StructPropertyValue::RotatorF(_) | StructPropertyValue::RotatorD(_) => {
+                type_name == "Rotator"
+            }
+            StructPropertyValue::QuatF(_) | StructPropertyValue::QuatD(_) => type_name == "Quat",
+            StructPropertyValue::DateTime(_) => type_name == "DateTime",
+            StructPropertyValue::Timespan(_) => type_name == "Timespan",
+            StructPropertyValue::Guid(_) => type_name == "Guid",
+            StructPropertyValue::LinearColor(_) => type_name == "LinearColor",
+            StructPropertyValue::IntPoint(_) => type_name == "IntPoint",
+            StructPropertyValue::GameplayTagContainer(_) => type_name == "GameplayTagContainer",
+            StructPropertyValue::CustomStruct(_) => !matches!(
+                type_name,
+                "Vector2D"
+                    | "Vector"
+                    | "Rotator"
+                    | "Quat"
+                    | "DateTime"
+                    | "Timespan"
+                    | "Guid"
+                    | "LinearColor"
+                    | "IntPoint"
+                    | "GameplayTagContainer"
+            ),
+        };
+        validate!(matches, "Value does not match struct type {type_name}");
+        Ok(())
+    }
+
     fn read_custom<R: Read + Seek>(
         cursor: &mut R,
         options: &mut PropertyOptions,
-- 
2.43.0


From 5d5d8a27f68e5dbe630659583efdc1bba68f16c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:23 +0000
Subject: [PATCH 24/25] fix: refuse to save elements that contradict the type
 of their container

---
 src/properties/array_property.rs   |  8 ++-
 src/properties/map_property.rs     | 15 +++--
 src/properties/mod.rs              | 96 +++++++++++++++++++++++++++++-
 src/properties/set_property.rs     |  1 +
 src/properties/unknown_property.rs | 10 ++++
 5 files changed, 121 insertions(+), 9 deletions(-)

diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 964cc0d..d81271d 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -472,10 +472,16 @@ impl PropertyTrait for ArrayProperty {
             }
 
             ArrayProperty::Properties {
-                property_type: _,
+                property_type,
                 properties,
             } => {
                 let mut len = 4;
+                if property_type == "StructProperty" {
+                    Err(SerializeError::invalid_value(
+                        "Array of StructProperty needs struct_info",
+                    ))?
+                }
+                Property::check_elements(properties, property_type)?;
                 cursor.write_u32::<LittleEndian>(properties.len() as u32)?;
                 for property in properties {
                     len += property.write(cursor, false, options)?;
diff --git a/src/properties/map_property.rs b/src/properties/map_property.rs
index 4395f1e..8d73d2d 100644
--- a/src/properties/map_property.rs
+++ b/src/properties/map_property.rs
@@ -532,7 +532,7 @@ impl PropertyTrait for MapProperty {
             }
 
             MapProperty::EnumProperty {
-                value_type: _,
+                value_type,
                 enum_props: HashableIndexMap(enum_props),
             } => {
                 cursor.write_u32::<LittleEndian>(0)?;
@@ -541,6 +541,7 @@ impl PropertyTrait for MapProperty {
                 for (key, value) in enum_props {
                     let property = EnumProperty::new(None, key.clone());
                     len += property.write(cursor, false, options)?;
+                    value.check_entry(value_type)?;
                     len += value.write(cursor, false, options)?;
                 }
                 Ok(len)
@@ -577,7 +578,7 @@ impl PropertyTrait for MapProperty {
             }
 
             MapProperty::NameProperty {
-                value_type: _,
+                value_type,
                 name_props: HashableIndexMap(name_props),
             } => {
                 cursor.write_u32::<LittleEndian>(0)?;
@@ -586,14 +587,15 @@ impl PropertyTrait for MapProperty {
                 for (key, value) in name_props {
                     let property = NameProperty::from(key.clone());
                     len += property.write(cursor, false, options)?;
+                    value.check_entry(value_type)?;
                     len += value.write(cursor, false, options)?;
                 }
                 Ok(len)
             }
 
             MapProperty::Properties {
-                key_type: _,
-                value_type: _,
+                key_type,
+                value_type,
                 allocation_flags,
                 value: HashableIndexMap(value),
             } => {
@@ -601,6 +603,8 @@ impl PropertyTrait for MapProperty {
                 cursor.write_u32::<LittleEndian>(value.len() as u32)?;
                 let mut len = 8;
                 for (key, value) in value {
+                    key.check_entry(key_type)?;
+                    value.check_entry(value_type)?;
                     len += key.write(cursor, false, options)?;
                     len += value.write(cursor, false, options)?;
                 }
@@ -638,7 +642,7 @@ impl PropertyTrait for MapProperty {
             }
 
             MapProperty::StrProperty {
-                value_type: _,
+                value_type,
                 str_props: HashableIndexMap(str_props),
             } => {
                 cursor.write_u32::<LittleEndian>(0)?;
@@ -647,6 +651,7 @@ impl PropertyTrait for MapProperty {
                 for (key, value) in str_props {
                     let property = StrProperty::from(key.clone());
                     len += property.write(cursor, false, options)?;
+                    value.check_entry(value_type)?;
                     len += value.write(cursor, false, options)?;
                 }
                 Ok(len)
diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index bd6c3f7..82ca6ce 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -9,7 +9,7 @@ use enum_dispatch::enum_dispatch;
 
 use crate::{
     custom_version::{CustomVersionTrait, FCustomVersion},
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
     scoped_stack_entry::ScopedStackEntry,
     types::{Guid, map::HashableIndexMap},
 };
@@ -22,8 +22,8 @@ use self::{
     enum_property::EnumProperty,
     field_path_property::FieldPathProperty,
     int_property::{
-        BoolProperty, ByteProperty, DoubleProperty, FloatProperty, Int8Property, Int16Property,
-        Int64Property, IntProperty, UInt16Property, UInt32Property, UInt64Property,
+        BoolProperty, ByteProperty, BytePropertyValue, DoubleProperty, FloatProperty, Int8Property,
+        Int16Property, Int64Property, IntProperty, UInt16Property, UInt32Property, UInt64Property,
     },
     map_property::MapProperty,
     name_property::NameProperty,
@@ -635,6 +635,96 @@ impl Property {
         }
     }
 
+    /// Name of the type in a file
+    fn type_name(&self) -> &str {
+        match self {
+            Property::ArrayProperty(_) => "ArrayProperty",
+            Property::BoolProperty(_) => "BoolProperty",
+            Property::ByteProperty(_) => "ByteProperty",
+            Property::DoubleProperty(_) => "DoubleProperty",
+            Property::EnumProperty(_) => "EnumProperty",
+            Property::FloatProperty(_) => "FloatProperty",
+            Property::Int16Property(_) => "Int16Property",
+            Property::Int64Property(_) => "Int64Property",
+            Property::Int8Property(_) => "Int8Property",
+            Property::IntProperty(_) => "IntProperty",
+            Property::MapProperty(_) => "MapProperty",
+            Property::NameProperty(_) => "NameProperty",
+            Property::ObjectProperty(_) => "ObjectProperty",
+            Property::DelegateProperty(_) => "DelegateProperty",
+            Property::MulticastInlineDelegateProperty(_) => "MulticastInlineDelegateProperty",
+            Property::MulticastSparseDelegateProperty(_) => "MulticastSparseDelegateProperty",
+            Property::FieldPathProperty(_) => "FieldPathProperty",
+            Property::SetProperty(_) => "SetProperty",
+            Property::StrProperty(_) => "StrProperty",
+            Property::StructProperty(_) | Property::StructPropertyValue(_) => "StructProperty",
+            Property::TextProperty(_) => "TextProperty",
+            Property::UInt16Property(_) => "UInt16Property",
+            Property::UInt32Property(_) => "UInt32Property",
+            Property::UInt64Property(_) => "UInt64Property",
+            Property::UnknownProperty(property) => property.property_name(),
+        }
+    }
+
+    /// Refuse elements that would not be read as they are from a container of `property_type`
+    pub(crate) fn check_elements(
+        properties: &[Property],
+        property_type: &str,
+    ) -> Result<(), Error> {
+        let mut size = None;
+        for property in properties {
+            property.check_element(property_type)?;
+            // These are told apart by their size, which is the same for all elements
+            let element_size = match property {
+                Property::ByteProperty(property) => match property.value {
+                    BytePropertyValue::Byte(_) => 1,
+                    BytePropertyValue::Namespaced(_) => 0,
+                },
+                Property::UnknownProperty(property) if property.raw().is_empty() => Err(
+                    SerializeError::invalid_value(format!("Empty {property_type} in a container")),
+                )?,
+                Property::UnknownProperty(property) => property.raw().len(),
+                _ => continue,
+            };
+            if *size.get_or_insert(element_size) != element_size {
+                Err(SerializeError::invalid_value(format!(
+                    "Sizes of {property_type} differ in a container"
+                )))?
+            }
+        }
+        Ok(())
+    }
+
+    /// Refuse a key or value that would not be read as it is from a map
+    pub(crate) fn check_entry(&self, property_type: &str) -> Result<(), Error> {
+        self.check_element(property_type)?;
+        match self {
+            Property::ByteProperty(ByteProperty {
+                value: BytePropertyValue::Namespaced(_),
+                ..
+            })
+            | Property::UnknownProperty(_) => Err(SerializeError::invalid_value(format!(
+                "{property_type} without a size is not supported in maps"
+            )))?,
+            _ => Ok(()),
+        }
+    }
+
+    fn check_element(&self, property_type: &str) -> Result<(), Error> {
+        let type_name = self.type_name();
+        match self {
+            Property::ArrayProperty(_) | Property::SetProperty(_) | Property::MapProperty(_) => {
+                Err(SerializeError::invalid_value(format!(
+                    "{type_name} is not supported in containers"
+                )))?
+            }
+            _ if type_name != property_type => Err(SerializeError::invalid_value(format!(
+                "{type_name} in a container of {property_type}"
+            )))?,
+            _ => Ok(()),
+        }
+    }
+
     make_matcher!(ArrayProperty, get_array, get_array_mut);
     make_matcher!(EnumProperty, get_enum, get_enum_mut);
     make_matcher!(BoolProperty, get_bool, get_bool_mut);
diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index 8e821f5..bbc8fb4 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -96,6 +96,7 @@ impl PropertyTrait for SetProperty {
         cursor: &mut W,
         options: &mut PropertyOptions,
     ) -> Result<usize, Error> {
+        Property::check_elements(&self.properties, &self.property_type)?;
         cursor.write_u32::<LittleEndian>(self.allocation_flags)?;
         cursor.write_u32::<LittleEndian>(self.properties.len() as u32)?;
         let mut len = 8;
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index 71f1b3c..17bbdea 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -24,6 +24,16 @@ impl UnknownProperty {
         UnknownProperty { property_name, raw }
     }
 
+    #[inline]
+    pub(crate) fn property_name(&self) -> &str {
+        &self.property_name
+    }
+
+    #[inline]
+    pub(crate) fn raw(&self) -> &[u8] {
+        &self.raw
+    }
+
     #[inline]
     pub(crate) fn read_with_length<R: Read + Seek>(
         cursor: &mut R,
-- 
2.43.0


From 3091969124944f841a82f1fb0e8c7f334c5da80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:25 +0000
Subject: [PATCH 25/25] fix: refuse to save raw bytes under the name of a known
 type

---
 src/properties/mod.rs              | 31 ++++++++++++++++++++++++++++++
 src/properties/unknown_property.rs | 10 ++++++++--
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 82ca6ce..d75ea8a 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -635,6 +635,37 @@ impl Property {
         }
     }
 
+    /// Whether properties of a type are read as anything other than bytes
+    pub(crate) fn is_known_type(type_name: &str) -> bool {
+        matches!(
+            type_name,
+            "ArrayProperty"
+                | "BoolProperty"
+                | "ByteProperty"
+                | "DelegateProperty"
+                | "DoubleProperty"
+                | "EnumProperty"
+                | "FieldPathProperty"
+                | "FloatProperty"
+                | "Int16Property"
+                | "Int64Property"
+                | "Int8Property"
+                | "IntProperty"
+                | "MapProperty"
+                | "MulticastInlineDelegateProperty"
+                | "MulticastSparseDelegateProperty"
+                | "NameProperty"
+                | "ObjectProperty"
+                | "SetProperty"
+                | "StrProperty"
+                | "StructProperty"
+                | "TextProperty"
+                | "UInt16Property"
+                | "UInt32Property"
+                | "UInt64Property"
+        )
+    }
+
     /// Name of the type in a file
     fn type_name(&self) -> &str {
         match self {
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index 17bbdea..a0dc9aa 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -4,10 +4,10 @@ use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
 use crate::{
     cursor_ext::WriteExt,
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
 };
 
-use super::{PropertyOptions, PropertyTrait};
+use super::{Property, PropertyOptions, PropertyTrait};
 
 /// This struct is read when a property is unknown to the deserializer
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -104,6 +104,12 @@ impl PropertyTrait for UnknownProperty {
         cursor: &mut W,
         _: &mut PropertyOptions,
     ) -> Result<usize, Error> {
+        if Property::is_known_type(&self.property_name) {
+            Err(SerializeError::invalid_value(format!(
+                "{} is not an unknown type",
+                self.property_name
+            )))?
+        }
         cursor.write_all(&self.raw)?;
 
         Ok(self.raw.len())
-- 
2.43.0

