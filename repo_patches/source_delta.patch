From 6b5f3da2cc4b299e44fe8dea6d90c4e7bdc8e4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:16 +0000
Subject: [PATCH 01/19] fix: report the number of bytes actually written

write_string counted two bytes per character for 8-bit strings, properties
with an array index did not count their type name, and tag containers
counted tags instead of the four bytes of the count field.
---
 src/cursor_ext.rs                 | 2 +-
 src/properties/mod.rs             | 2 +-
 src/properties/struct_property.rs | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 8fc0c44..74f6a8e 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -152,7 +152,7 @@ impl<W: Write> WriteExt for W {
             self.write_i32::<LittleEndian>(len as i32)?;
             let _ = self.write(v.as_bytes())?;
             let _ = self.write(&[0u8; 1])?;
-            Ok(len * 2 + 4)
+            Ok(len + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
             let words: Vec<u16> = v.encode_utf16().collect();
diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 963f515..cd1fcfd 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -330,7 +330,7 @@ macro_rules! impl_write {
             len += self.write_body(buf, options)?;
             let buf = buf.get_ref();
 
-            writer.write_string(stringify!($property))?;
+            len += writer.write_string(stringify!($property))?;
             writer.write_u32::<LittleEndian>(buf.len() as u32)?;
             writer.write_u32::<LittleEndian>(self.array_index)?;
             $(
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 8a59413..4898eb1 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -347,8 +347,8 @@ impl PropertyTrait for StructPropertyValue {
                 Ok(16)
             }
             StructPropertyValue::GameplayTagContainer(tags) => {
-                let mut len = tags.len();
-                cursor.write_i32::<LittleEndian>(len as i32)?;
+                let mut len = 4;
+                cursor.write_i32::<LittleEndian>(tags.len() as i32)?;
                 for gameplaytag in tags {
                     len += cursor.write_string(gameplaytag)?;
                 }
-- 
2.43.0


From d1001e5be4330ba55e90c8ec07dc5bbd172be66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:16 +0000
Subject: [PATCH 02/19] fix: write strings completely on short writes

Write::write may accept only part of the buffer; the remainder of the
string was silently dropped.
---
 src/cursor_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 74f6a8e..f6fbe86 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -150,8 +150,8 @@ impl<W: Write> WriteExt for W {
             // ASCII strings do not require encoding
             let len = v.len() + 1;
             self.write_i32::<LittleEndian>(len as i32)?;
-            let _ = self.write(v.as_bytes())?;
-            let _ = self.write(&[0u8; 1])?;
+            self.write_all(v.as_bytes())?;
+            self.write_all(&[0u8; 1])?;
             Ok(len + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
-- 
2.43.0


From e3cee6471a665c5e48998fed9dcedf272d28e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:13 +0000
Subject: [PATCH 03/19] fix: reject malformed property headers instead of
 panicking

Separators, array indices and the element type of struct arrays were
checked with assert_eq!, so a damaged file aborted the caller.
---
 src/properties/array_property.rs   |  6 +++++-
 src/properties/int_property.rs     | 32 +++++++++++++++++-------------
 src/properties/unknown_property.rs | 22 +++++++++++---------
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 9977e3e..7b2a51f 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -311,7 +311,11 @@ impl ArrayProperty {
                 let field_name = cursor.read_string()?;
 
                 let property_type = cursor.read_string()?;
-                assert_eq!(property_type, "StructProperty");
+                validate!(
+                    cursor,
+                    property_type == "StructProperty",
+                    "Unexpected array element type {property_type}",
+                );
                 let properties_size = cursor.read_u64::<LittleEndian>()?;
 
                 let struct_name = cursor.read_string()?;
diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index ab4f7e4..8a24f1b 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -28,6 +28,16 @@ macro_rules! check_size {
     };
 }
 
+macro_rules! check_terminator {
+    ($cursor:ident) => {
+        let terminator = $cursor.read_u8()?;
+        if terminator != 0 {
+            let position = $cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(terminator, position))?
+        }
+    };
+}
+
 macro_rules! impl_int_property {
     ($name:ident, $ty:ident, $read_method:ident, $write_method:ident, $size:literal) => {
         #[doc = concat!("A property that stores a `", stringify!($ty), "`.")]
@@ -53,8 +63,7 @@ macro_rules! impl_int_property {
             ) -> Result<Self, Error> {
                 if include_header {
                     check_size!(cursor, $size);
-                    let separator = cursor.read_u8()?;
-                    assert_eq!(separator, 0);
+                    check_terminator!(cursor);
                 }
                 Ok(Self::new(cursor.$read_method::<LittleEndian>()?))
             }
@@ -107,8 +116,7 @@ impl Int8Property {
     ) -> Result<Self, Error> {
         if include_header {
             check_size!(cursor, 1);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_terminator!(cursor);
         }
         Ok(Int8Property {
             value: cursor.read_i8()?,
@@ -193,17 +201,14 @@ impl ByteProperty {
         if include_header {
             let length = cursor.read_u32::<LittleEndian>()?;
             let array_index = cursor.read_u32::<LittleEndian>()?;
-            assert_eq!(
-                array_index,
-                0,
-                "Expected array_index value zero @ {:#x}",
-                cursor.stream_position()? - 4
-            );
+            if array_index != 0 {
+                let position = cursor.stream_position()? - 4;
+                Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+            }
             suggested_length = Some(length);
 
             name = Some(cursor.read_string()?);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_terminator!(cursor);
         }
 
         // -1 to account for separator
@@ -286,8 +291,7 @@ impl BoolProperty {
         }
         let value = cursor.read_bool()?;
         if include_header {
-            let indicator = cursor.read_u8()?;
-            assert_eq!(indicator, 0);
+            check_terminator!(cursor);
         }
         Ok(BoolProperty { value })
     }
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index e7126b7..15640cf 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -2,7 +2,10 @@ use std::io::{Cursor, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
-use crate::{cursor_ext::WriteExt, error::Error};
+use crate::{
+    cursor_ext::WriteExt,
+    error::{DeserializeError, Error},
+};
 
 use super::{PropertyOptions, PropertyTrait};
 
@@ -43,14 +46,15 @@ impl UnknownProperty {
     ) -> Result<Self, Error> {
         let length = cursor.read_u32::<LittleEndian>()?;
         let array_index = cursor.read_u32::<LittleEndian>()?;
-        assert_eq!(
-            array_index,
-            0,
-            "Expected array_index value zero @ {:#x}",
-            cursor.stream_position()? - 4
-        );
-        let separator = cursor.read_u8()?;
-        assert_eq!(separator, 0);
+        if array_index != 0 {
+            let position = cursor.stream_position()? - 4;
+            Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+        }
+        let terminator = cursor.read_u8()?;
+        if terminator != 0 {
+            let position = cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(terminator, position))?
+        }
 
         UnknownProperty::read_with_length(cursor, property_name, length)
     }
-- 
2.43.0


From ff5f7600bce7e8655d75b99ce8e871b5d198c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:14 +0000
Subject: [PATCH 04/19] fix: return an error for unsupported text history and
 argument kinds

---
 src/properties/text_property.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index e38b961..f9da13d 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,7 +14,7 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::Error,
+    error::{DeserializeError, Error},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
@@ -493,7 +493,10 @@ impl FTextHistory {
 
                 FTextHistory::StringTableEntry { table_id, key }
             }
-            _ => unimplemented!("unimplemented history type: {:?}", history_type),
+            _ => Err(DeserializeError::invalid_property(
+                format!("unimplemented history type: {history_type:?}"),
+                cursor,
+            ))?,
         })
     }
 
@@ -779,7 +782,10 @@ impl FormatArgumentValue {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
             FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
-            FormatArgumentType::Gender => unimplemented!(),
+            FormatArgumentType::Gender => Err(DeserializeError::invalid_property(
+                "unimplemented format argument type: Gender",
+                cursor,
+            ))?,
         })
     }
 
-- 
2.43.0


From 20f76445a005bb033123509ba24d1dd27c1a5993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:15 +0000
Subject: [PATCH 05/19] fix: check the declared size of byte properties and
 sets

A size of zero underflowed, and a byte property whose declared size did
not match its value was accepted.
---
 src/properties/int_property.rs | 13 ++++++++++++-
 src/properties/set_property.rs |  3 ++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 8a24f1b..1cfc119 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -212,12 +212,23 @@ impl ByteProperty {
         }
 
         // -1 to account for separator
-        let length = suggested_length.map(|e| e - 1).unwrap_or(1);
+        let length = suggested_length.map(|e| e.saturating_sub(1)).unwrap_or(1);
 
+        let start = cursor.stream_position()?;
         let value = match length {
             1 | 0 => BytePropertyValue::Byte(cursor.read_u8()?),
             _ => BytePropertyValue::Namespaced(cursor.read_string()?),
         };
+        let end = cursor.stream_position()?;
+        if let (true, Some(length)) = (include_header, suggested_length)
+            && end - start != length as u64
+        {
+            Err(DeserializeError::InvalidValueSize(
+                length as u64,
+                end - start,
+                start,
+            ))?
+        }
 
         Ok(ByteProperty { name, value })
     }
diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index 1bc82db..c7c0777 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -65,7 +65,8 @@ impl SetProperty {
         let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
 
         if element_count > 0
-            && let Some(total_bytes_per_property) = (length - 8).checked_div(element_count)
+            && let Some(total_bytes_per_property) =
+                length.saturating_sub(8).checked_div(element_count)
         {
             for _ in 0..element_count {
                 properties.push(Property::new(
-- 
2.43.0


From cad5d6654890cc37537b374bd0b5f747adf8973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:58 +0000
Subject: [PATCH 06/19] fix: do not reserve memory for counts that have not
 been validated

Counts and lengths read from the file were passed to with_capacity and
vec![0; n], so a few bytes could request gigabytes or overflow the
capacity. Signed counts were converted with 'as usize'; a negative one
panicked or was silently dropped.
---
 src/cursor_ext.rs                     | 12 +++++++++++-
 src/lib.rs                            | 14 ++++----------
 src/properties/array_property.rs      |  2 +-
 src/properties/delegate_property.rs   |  2 +-
 src/properties/field_path_property.rs |  2 +-
 src/properties/map_property.rs        |  2 +-
 src/properties/set_property.rs        |  2 +-
 src/properties/struct_property.rs     |  4 ++--
 src/properties/text_property.rs       | 12 ++++++------
 src/properties/unknown_property.rs    |  5 ++---
 10 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index f6fbe86..2df3cf3 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -1,4 +1,4 @@
-use std::io::{Read, Seek, Write};
+use std::io::{self, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
@@ -7,6 +7,16 @@ use crate::{
     types::Guid,
 };
 
+/// Reads exactly `length` bytes, allocating only as data arrives.
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, length: u32) -> Result<Vec<u8>, Error> {
+    let mut data = Vec::new();
+    reader.take(length as u64).read_to_end(&mut data)?;
+    if data.len() != length as usize {
+        Err(io::Error::from(io::ErrorKind::UnexpectedEof))?
+    }
+    Ok(data)
+}
+
 /// Extensions for `Read`.
 pub trait ReadExt {
     /// Reads a GVAS string.
diff --git a/src/lib.rs b/src/lib.rs
index c72922a..6bf95b3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ use flate2::read::ZlibDecoder;
 use flate2::write::ZlibEncoder;
 
 use crate::{
-    cursor_ext::{ReadExt, WriteExt},
+    cursor_ext::{ReadExt, WriteExt, read_bytes},
     custom_version::FCustomVersion,
     engine_version::FEngineVersion,
     error::{DeserializeError, Error},
@@ -221,7 +221,7 @@ impl GvasHeader {
         }
 
         let custom_versions_len = cursor.read_u32::<LittleEndian>()?;
-        let mut custom_versions = HashableIndexMap::with_capacity(custom_versions_len as usize);
+        let mut custom_versions = HashableIndexMap::new();
         for _ in 0..custom_versions_len {
             let FCustomVersion { key, version } = FCustomVersion::read(cursor)?;
             custom_versions.insert(key, version);
@@ -432,18 +432,12 @@ impl GvasFile {
 
                 match compression_type {
                     PalworldCompressionType::None => {
-                        let mut data = vec![0u8; decompresed_length as usize];
-
-                        cursor.read_exact(&mut data)?;
-                        Cursor::new(data)
+                        Cursor::new(read_bytes(cursor, decompresed_length)?)
                     }
                     PalworldCompressionType::Zlib => {
-                        let mut zlib_data = vec![0u8; decompresed_length as usize];
-
                         let mut decoder = ZlibDecoder::new(cursor);
-                        decoder.read_exact(&mut zlib_data)?;
 
-                        Cursor::new(zlib_data)
+                        Cursor::new(read_bytes(&mut decoder, decompresed_length)?)
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let decoder = ZlibDecoder::new(cursor);
diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 7b2a51f..8ce2c65 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -302,7 +302,7 @@ impl ArrayProperty {
         property_type: String,
     ) -> Result<Self, Error> {
         let property_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(property_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         let mut array_struct_info = None;
 
diff --git a/src/properties/delegate_property.rs b/src/properties/delegate_property.rs
index 8f8e0df..5ff49bb 100644
--- a/src/properties/delegate_property.rs
+++ b/src/properties/delegate_property.rs
@@ -105,7 +105,7 @@ impl MulticastScriptDelegate {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let delegates_len = cursor.read_u32::<LittleEndian>()?;
-        let mut delegates = Vec::with_capacity(delegates_len as usize);
+        let mut delegates = Vec::new();
         for _ in 0..delegates_len {
             delegates.push(Delegate::read(cursor)?);
         }
diff --git a/src/properties/field_path_property.rs b/src/properties/field_path_property.rs
index 0579ad1..120bcd5 100644
--- a/src/properties/field_path_property.rs
+++ b/src/properties/field_path_property.rs
@@ -32,7 +32,7 @@ impl FieldPath {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let path_len = cursor.read_u32::<LittleEndian>()?;
-        let mut path = Vec::with_capacity(path_len as usize);
+        let mut path = Vec::new();
         for _ in 0..path_len {
             path.push(cursor.read_string()?);
         }
diff --git a/src/properties/map_property.rs b/src/properties/map_property.rs
index 9ee6bb6..d7c0e36 100644
--- a/src/properties/map_property.rs
+++ b/src/properties/map_property.rs
@@ -465,7 +465,7 @@ impl MapProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
         let element_count = cursor.read_u32::<LittleEndian>()?;
 
-        let mut map = HashableIndexMap::with_capacity(element_count as usize);
+        let mut map = HashableIndexMap::new();
         for _ in 0..element_count {
             let properties_stack = &mut options.properties_stack;
             let key_stack_entry = ScopedStackEntry::new(properties_stack, "Key".to_string());
diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index c7c0777..8e821f5 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -62,7 +62,7 @@ impl SetProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
 
         let element_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         if element_count > 0
             && let Some(total_bytes_per_property) =
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 4898eb1..6402624 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -391,8 +391,8 @@ impl StructPropertyValue {
     }
 
     fn read_gameplaytagcontainer<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
-        let len = cursor.read_i32::<LittleEndian>()?;
-        let mut tags: Vec<String> = Vec::with_capacity(len as usize);
+        let len = cursor.read_u32::<LittleEndian>()?;
+        let mut tags: Vec<String> = Vec::new();
         for _ in 0..len {
             tags.push(cursor.read_string()?);
         }
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index f9da13d..acf31c3 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -331,8 +331,8 @@ impl FTextHistory {
             TextHistoryType::NamedFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
-                let argument_count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(argument_count as usize);
+                let argument_count = cursor.read_u32::<LittleEndian>()?;
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
@@ -348,8 +348,8 @@ impl FTextHistory {
             TextHistoryType::OrderedFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
-                let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = Vec::with_capacity(count as usize);
+                let count = cursor.read_u32::<LittleEndian>()?;
+                let mut arguments = Vec::new();
 
                 for _ in 0..count {
                     arguments.push(FormatArgumentValue::read(cursor, options)?);
@@ -362,8 +362,8 @@ impl FTextHistory {
             }
             TextHistoryType::ArgumentFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
-                let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(count as usize);
+                let count = cursor.read_u32::<LittleEndian>()?;
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index 15640cf..cbeec56 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -3,7 +3,7 @@ use std::io::{Cursor, Read, Seek, Write};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
 use crate::{
-    cursor_ext::WriteExt,
+    cursor_ext::{WriteExt, read_bytes},
     error::{DeserializeError, Error},
 };
 
@@ -30,8 +30,7 @@ impl UnknownProperty {
         property_name: String,
         length: u32,
     ) -> Result<Self, Error> {
-        let mut data = vec![0u8; length as usize];
-        cursor.read_exact(&mut data)?;
+        let data = read_bytes(cursor, length)?;
 
         Ok(UnknownProperty {
             property_name,
-- 
2.43.0


From 74d7bd9fe1c243a911dd4331a91bc77737604464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:59 +0000
Subject: [PATCH 07/19] fix: reject zero-sized elements of unknown type

An array or set of such elements could announce billions of entries
without providing a single byte of data.
---
 src/properties/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index cd1fcfd..68a8af3 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -608,7 +608,8 @@ impl Property {
                     );
                 }
 
-                if let Some(suggested_length) = suggested_length {
+                // A zero-sized element would let the element count grow without any input
+                if let Some(suggested_length) = suggested_length.filter(|length| *length > 0) {
                     return Ok(UnknownProperty::read_with_length(
                         cursor,
                         value_type.to_string(),
-- 
2.43.0


From 960fe0d90a48ac1a59df471c292a8ca3fbc9f324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:59 +0000
Subject: [PATCH 08/19] fix: accept only hexadecimal digits in identifiers

Multi-byte characters made the slicing panic, and a plus sign was
accepted as part of a digit pair.
---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 22705f4..677d0dd 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -174,7 +174,7 @@ impl FromStr for Guid {
             return Ok(Guid([0u8; 16]));
         }
 
-        if cleaned.len() != 32 {
+        if cleaned.len() != 32 || !cleaned.bytes().all(|b| b.is_ascii_hexdigit()) {
             Err(ParseGuidError)?;
         }
         let mut guid = Guid(Default::default());
-- 
2.43.0


From 3b019a63d7d8c82333484e62759d2f5e1982c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:42 +0000
Subject: [PATCH 09/19] fix: keep the order of repeated struct members

The debug assertion on array indices made valid input panic, while
members repeated non-adjacently were silently reordered.
---
 src/properties/struct_property.rs | 33 ++++++++++++++++---------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 6402624..ef3f27c 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -11,7 +11,7 @@ use crate::{
     cursor_ext::{ReadExt, WriteExt},
     custom_version::FUE5ReleaseStreamObjectVersion,
     error::{DeserializeError, Error, SerializeError},
-    properties::{name_property::NameProperty, struct_types::LinearColor},
+    properties::struct_types::LinearColor,
     scoped_stack_entry::ScopedStackEntry,
     types::{Guid, map::HashableIndexMap},
 };
@@ -181,21 +181,22 @@ impl StructProperty {
     }
 }
 
-fn insert_property(map: &mut IndexMap<String, Vec<Property>>, key: String, property: Property) {
-    let entry = map.entry(key).or_default();
-    #[cfg(debug_assertions)]
-    {
-        let array_index = match property {
-            // TODO: Move array_index to the Property layer
-            Property::NameProperty(NameProperty { array_index, .. }) => array_index,
-            _ => 0,
-        };
-        let actual_array_index = entry.len() as u32;
-        // Ensure that the position in the array matches the array_index value,
-        // otherwise this conversion would cause data loss.
-        assert_eq!(actual_array_index, array_index);
+fn insert_property<S: Seek>(
+    map: &mut IndexMap<String, Vec<Property>>,
+    key: String,
+    property: Property,
+    cursor: &mut S,
+) -> Result<(), Error> {
+    // Repeated members are stored together, so they must also be adjacent in the file,
+    // otherwise this conversion would change their order.
+    if map.get_index_of(&key).is_some_and(|i| i + 1 != map.len()) {
+        Err(DeserializeError::invalid_property(
+            format!("{key} is repeated after another property"),
+            cursor,
+        ))?
     }
-    entry.push(property);
+    map.entry(key).or_default().push(property);
+    Ok(())
 }
 
 impl PropertyTrait for StructProperty {
@@ -385,7 +386,7 @@ impl StructPropertyValue {
                 ScopedStackEntry::new(options.properties_stack, property_name.clone());
 
             let property = Property::new(cursor, &property_type, true, options, None)?;
-            insert_property(&mut properties, property_name, property);
+            insert_property(&mut properties, property_name, property, cursor)?;
         }
         Ok(StructPropertyValue::CustomStruct(properties))
     }
-- 
2.43.0


From f4e0f7e24cad75bfc0108b2e95bfd8cb112591f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:43 +0000
Subject: [PATCH 10/19] fix: reject duplicate keys instead of dropping entries

Tables that keep one entry per key silently lost the earlier entry when
a key was repeated in the file.
---
 src/lib.rs                      | 13 +++++++++++--
 src/properties/map_property.rs  |  7 ++++++-
 src/properties/text_property.rs | 14 ++++++++++++--
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6bf95b3..e498062 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -224,7 +224,11 @@ impl GvasHeader {
         let mut custom_versions = HashableIndexMap::new();
         for _ in 0..custom_versions_len {
             let FCustomVersion { key, version } = FCustomVersion::read(cursor)?;
-            custom_versions.insert(key, version);
+            if custom_versions.insert(key, version).is_some() {
+                Err(DeserializeError::InvalidHeader(
+                    format!("Duplicate custom version {key}").into_boxed_str(),
+                ))?
+            }
         }
 
         let save_game_class_name = cursor.read_string()?;
@@ -472,7 +476,12 @@ impl GvasFile {
             options.properties_stack.push(property_name.clone());
 
             let property = Property::new(&mut cursor, &property_type, true, &mut options, None)?;
-            properties.insert(property_name, property);
+            if properties.insert(property_name, property).is_some() {
+                Err(DeserializeError::invalid_property(
+                    "Duplicate property",
+                    &mut cursor,
+                ))?
+            }
 
             let _ = options.properties_stack.pop();
         }
diff --git a/src/properties/map_property.rs b/src/properties/map_property.rs
index d7c0e36..9c7fa35 100644
--- a/src/properties/map_property.rs
+++ b/src/properties/map_property.rs
@@ -477,7 +477,12 @@ impl MapProperty {
             let value = Property::new(cursor, &value_type, false, options, None)?;
             drop(value_stack_entry);
 
-            map.insert(key, value);
+            if map.insert(key, value).is_some() {
+                Err(DeserializeError::invalid_property(
+                    "Duplicate key in map",
+                    cursor,
+                ))?
+            }
         }
 
         Ok(MapProperty::new(
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index acf31c3..e936ba7 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -337,7 +337,12 @@ impl FTextHistory {
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
                     let value = FormatArgumentValue::read(cursor, options)?;
-                    arguments.insert(key, value);
+                    if arguments.insert(key, value).is_some() {
+                        Err(DeserializeError::invalid_property(
+                            "Duplicate format argument",
+                            cursor,
+                        ))?
+                    }
                 }
 
                 FTextHistory::NamedFormat {
@@ -368,7 +373,12 @@ impl FTextHistory {
                 for _ in 0..count {
                     let key = cursor.read_string()?;
                     let value = FormatArgumentValue::read(cursor, options)?;
-                    arguments.insert(key, value);
+                    if arguments.insert(key, value).is_some() {
+                        Err(DeserializeError::invalid_property(
+                            "Duplicate format argument",
+                            cursor,
+                        ))?
+                    }
                 }
 
                 FTextHistory::ArgumentFormat {
-- 
2.43.0


From c10844a4272f732373216263b274d9fe2eec3f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:44 +0000
Subject: [PATCH 11/19] fix: report unrepresentable values as errors when
 writing

Format arguments of the wrong width and the body of a bool property
panicked.
---
 src/properties/int_property.rs  |  9 +++++++--
 src/properties/text_property.rs | 18 +++++++++++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 1cfc119..a9def5a 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -337,8 +337,13 @@ impl PropertyTrait for BoolProperty {
         Ok(len)
     }
 
-    fn write_body<W: Write>(&self, _: &mut W, _: &mut PropertyOptions) -> Result<usize, Error> {
-        unimplemented!()
+    fn write_body<W: Write>(
+        &self,
+        cursor: &mut W,
+        _: &mut PropertyOptions,
+    ) -> Result<usize, Error> {
+        cursor.write_bool(self.value)?;
+        Ok(1)
     }
 }
 
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index e936ba7..2e72ecc 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,11 +14,19 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
 
+macro_rules! validate {
+    ($cond:expr, $($arg:tt)+) => {{
+        if !$cond {
+            Err(SerializeError::invalid_value(format!($($arg)+)))?
+        }
+    }};
+}
+
 /// A property that stores GVAS Text.
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -808,7 +816,7 @@ impl FormatArgumentValue {
     ) -> Result<usize, Error> {
         match self {
             FormatArgumentValue::Int(value) => {
-                assert!(
+                validate!(
                     !options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
@@ -819,7 +827,7 @@ impl FormatArgumentValue {
                 Ok(5)
             }
             FormatArgumentValue::Int64(value) => {
-                assert!(
+                validate!(
                     options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
@@ -830,7 +838,7 @@ impl FormatArgumentValue {
                 Ok(9)
             }
             FormatArgumentValue::UInt(value) => {
-                assert!(
+                validate!(
                     !options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
@@ -841,7 +849,7 @@ impl FormatArgumentValue {
                 Ok(5)
             }
             FormatArgumentValue::UInt64(value) => {
-                assert!(
+                validate!(
                     options.supports_version(
                         FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
                     ),
-- 
2.43.0


From 6a8a4599b690edcb6a9a743cfd1b7eee4cd7854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:38 +0000
Subject: [PATCH 12/19] fix: refuse to write values that can not be read back

A text with a culture invariant string was written without it when the
file version does not support it, and enum and byte properties without a
type name produced a header the reader rejects.
---
 src/properties/enum_property.rs | 11 +++++++++--
 src/properties/int_property.rs  |  8 ++++++--
 src/properties/text_property.rs | 17 +++++++++--------
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/properties/enum_property.rs b/src/properties/enum_property.rs
index 33693f6..5e5d8c0 100644
--- a/src/properties/enum_property.rs
+++ b/src/properties/enum_property.rs
@@ -4,7 +4,7 @@ use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::Error,
+    error::{Error, SerializeError},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read_header, impl_write, impl_write_header_part};
@@ -41,6 +41,13 @@ impl EnumProperty {
 
     impl_read_header!(enum_type);
 
+    #[inline]
+    fn get_enum_type(&self) -> Result<&str, Error> {
+        let enum_type = self.enum_type.as_deref();
+        Ok(enum_type
+            .ok_or_else(|| SerializeError::invalid_value("EnumProperty has no enum_type"))?)
+    }
+
     #[inline]
     fn read_body<R: Read + Seek>(cursor: &mut R, enum_type: Option<String>) -> Result<Self, Error> {
         let value = cursor.read_string()?;
@@ -50,7 +57,7 @@ impl EnumProperty {
 }
 
 impl PropertyTrait for EnumProperty {
-    impl_write!(EnumProperty, (write_fstring, enum_type));
+    impl_write!(EnumProperty, (write_string, fn, get_enum_type));
 
     #[inline]
     fn write_body<W: Write>(
diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index a9def5a..a39e822 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -12,7 +12,7 @@ use super::{
 };
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
 };
 
 macro_rules! check_size {
@@ -246,6 +246,10 @@ impl PropertyTrait for ByteProperty {
             return self.write_body(cursor, options);
         }
 
+        let Some(name) = &self.name else {
+            Err(SerializeError::invalid_value("ByteProperty has no name"))?
+        };
+
         let mut len = 9;
         len += cursor.write_string("ByteProperty")?;
 
@@ -254,7 +258,7 @@ impl PropertyTrait for ByteProperty {
         let buf = buf.get_ref();
 
         cursor.write_u64::<LittleEndian>(buf.len() as u64)?;
-        len += cursor.write_fstring(self.name.as_deref())?;
+        len += cursor.write_string(name)?;
         cursor.write_u8(0)?;
         cursor.write_all(buf)?;
 
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 2e72ecc..69beb1a 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -541,15 +541,16 @@ impl FTextHistory {
             FTextHistory::None {
                 culture_invariant_string,
             } => {
-                let mut len = 1;
+                validate!(
+                    options.supports_version(
+                        FEditorObjectVersion::CultureInvariantTextSerializationKeyStability,
+                    ),
+                    "FTextHistory::None requires CultureInvariantTextSerializationKeyStability"
+                );
+                let mut len = 5;
                 cursor.write_enum(TextHistoryType::None)?;
-                if options.supports_version(
-                    FEditorObjectVersion::CultureInvariantTextSerializationKeyStability,
-                ) {
-                    len += 4;
-                    cursor.write_b32(true)?;
-                    len += cursor.write_fstring(culture_invariant_string.as_deref())?;
-                }
+                cursor.write_b32(true)?;
+                len += cursor.write_fstring(culture_invariant_string.as_deref())?;
                 Ok(len)
             }
 
-- 
2.43.0


From 521d02484e2974c0a6652f8dfe8d62a8cacb485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:39 +0000
Subject: [PATCH 13/19] fix: refuse to write strings longer than the reader
 accepts

---
 src/cursor_ext.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 2df3cf3..bbe5f83 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -3,7 +3,7 @@ use std::io::{self, Read, Seek, Write};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
 use crate::{
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
     types::Guid,
 };
 
@@ -17,6 +17,18 @@ pub(crate) fn read_bytes<R: Read>(reader: &mut R, length: u32) -> Result<Vec<u8>
     Ok(data)
 }
 
+/// Maximum length of a string in characters, including the terminator.
+const MAX_STRING_LENGTH: i32 = 131072;
+
+fn check_string_length(len: usize) -> Result<(), Error> {
+    if len > MAX_STRING_LENGTH as usize {
+        Err(SerializeError::invalid_value(format!(
+            "String length {len} exceeds {MAX_STRING_LENGTH}"
+        )))?
+    }
+    Ok(())
+}
+
 /// Extensions for `Read`.
 pub trait ReadExt {
     /// Reads a GVAS string.
@@ -68,7 +80,7 @@ impl<R: Read + Seek> ReadExt for R {
         let start_position = self.stream_position()?;
         let len = self.read_i32::<LittleEndian>()?;
 
-        if !(-131072..=131072).contains(&len) {
+        if !(-MAX_STRING_LENGTH..=MAX_STRING_LENGTH).contains(&len) {
             Err(DeserializeError::InvalidString(len, start_position))?
         } else if len == 0 {
             Ok(None)
@@ -159,6 +171,7 @@ impl<W: Write> WriteExt for W {
         if v.is_ascii() {
             // ASCII strings do not require encoding
             let len = v.len() + 1;
+            check_string_length(len)?;
             self.write_i32::<LittleEndian>(len as i32)?;
             self.write_all(v.as_bytes())?;
             self.write_all(&[0u8; 1])?;
@@ -167,6 +180,7 @@ impl<W: Write> WriteExt for W {
             // Perform UTF-16 encoding when non-ASCII characters are detected
             let words: Vec<u16> = v.encode_utf16().collect();
             let len = words.len() + 1;
+            check_string_length(len)?;
             self.write_i32::<LittleEndian>(-(len as i32))?;
             for word in words {
                 self.write_u16::<LittleEndian>(word)?;
-- 
2.43.0


From 367f0c4334699f4723b6e67def0afca454500435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:40 +0000
Subject: [PATCH 14/19] fix: refuse to write properties named like the list
 terminator

---
 src/lib.rs                        | 7 ++++++-
 src/properties/struct_property.rs | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e498062..894fd3f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -98,7 +98,7 @@ use crate::{
     cursor_ext::{ReadExt, WriteExt, read_bytes},
     custom_version::FCustomVersion,
     engine_version::FEngineVersion,
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
     game_version::{DeserializedGameVersion, GameVersion, PLZ_MAGIC, PalworldCompressionType},
     object_version::EUnrealEngineObjectUE5Version,
     ord_ext::OrdExt,
@@ -529,6 +529,11 @@ impl GvasFile {
         };
 
         for (name, property) in &self.properties {
+            if name == "None" {
+                Err(SerializeError::invalid_value(
+                    "None is reserved as the end of the property list",
+                ))?
+            }
             writing_cursor.write_string(name)?;
             property.write(&mut writing_cursor, true, &mut options)?;
         }
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index ef3f27c..d8815f7 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -358,6 +358,7 @@ impl PropertyTrait for StructPropertyValue {
             StructPropertyValue::CustomStruct(properties) => {
                 let mut len = 0;
                 for (key, values) in properties {
+                    validate!(key != "None", "None is reserved as the end of the struct");
                     for value in values {
                         len += cursor.write_string(key)?;
                         len += value.write(cursor, true, options)?;
-- 
2.43.0


From 29da6ec0442fe4daa3ab1b878f3ebb7da08d5c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:42 +0000
Subject: [PATCH 15/19] fix: make equality of ordered maps agree with their
 hash

The derived equality ignored the order of entries while Hash depends on
it, so equal maps could have different hashes.
---
 src/types.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 677d0dd..00a0631 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -218,10 +218,21 @@ pub mod map {
     use indexmap::IndexMap;
 
     /// Wrapper around `IndexMap` to implement Hash and Eq functionality.
-    #[derive(Debug, Clone, PartialEq, Eq)]
+    #[derive(Debug, Clone, Eq)]
     #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
     pub struct HashableIndexMap<K: Hash + Eq, V: Hash>(pub IndexMap<K, V>);
 
+    impl<K, V> PartialEq for HashableIndexMap<K, V>
+    where
+        K: Hash + Eq,
+        V: Hash + PartialEq,
+    {
+        // The order of the entries is significant, as it is for Hash.
+        fn eq(&self, other: &Self) -> bool {
+            self.0.iter().eq(other.0.iter())
+        }
+    }
+
     impl<K, V> HashableIndexMap<K, V>
     where
         K: Hash + Eq,
-- 
2.43.0


From 6dd498f549b2b6b550be6c150ccce19d7d19b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:01 +0000
Subject: [PATCH 16/19] fix: write the compressed length of Palworld saves
 correctly

The field holds the length of the data after the first compression. The
four bytes of the magic and type were counted as well, and for double
compression the length of the second layer was recorded. Errors of the
outer compressor were lost because it was finished by its destructor.
---
 src/lib.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 894fd3f..50ce155 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -552,25 +552,32 @@ impl GvasFile {
                 cursor.write_enum(compression_type)?;
 
                 // Compress and write data directly to the output cursor
-                match compression_type {
-                    PalworldCompressionType::None => cursor.write_all(&decompressed)?,
+                let compressed_length = match compression_type {
+                    PalworldCompressionType::None => {
+                        cursor.write_all(&decompressed)?;
+                        decompressed.len() as u64
+                    }
                     PalworldCompressionType::Zlib => {
                         let mut encoder = ZlibEncoder::new(cursor.by_ref(), Compression::new(6));
                         encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        encoder.try_finish()?;
+                        encoder.total_out()
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let encoder = ZlibEncoder::new(cursor.by_ref(), Compression::default());
                         let mut encoder = ZlibEncoder::new(encoder, Compression::default());
                         encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        encoder.try_finish()?;
+                        let compressed_length = encoder.total_out();
+                        encoder.finish()?.finish()?;
+                        compressed_length
                     }
-                }
+                };
 
                 // Update compressed length
                 let end_pos = cursor.stream_position()?;
                 cursor.seek(SeekFrom::Start(compressed_length_pos))?;
-                cursor.write_u32::<LittleEndian>((end_pos - (compressed_length_pos + 4)) as u32)?;
+                cursor.write_u32::<LittleEndian>(compressed_length as u32)?;
                 cursor.seek(SeekFrom::Start(end_pos))?;
             }
         }
-- 
2.43.0


From 5f2d203ae15f3c968efee9d6d4f4b7769c0f2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:23 +0000
Subject: [PATCH 17/19] fix: check the decompressed length of Palworld saves

It was ignored for doubly compressed saves, and for singly compressed
ones excess data and the checksum at the end were not read.
---
 src/lib.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 50ce155..25bc155 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -330,6 +330,20 @@ impl GvasHeader {
     }
 }
 
+/// Decompress a stream that must contain exactly `length` bytes.
+fn decompress<R: Read>(reader: R, length: u32) -> Result<Vec<u8>, Error> {
+    let mut data = Vec::new();
+    ZlibDecoder::new(reader)
+        .take(length as u64 + 1)
+        .read_to_end(&mut data)?;
+    if data.len() != length as usize {
+        Err(DeserializeError::InvalidHeader(
+            format!("Decompressed length does not match {length}").into_boxed_str(),
+        ))?
+    }
+    Ok(data)
+}
+
 /// Main UE4 save file struct
 #[derive(Debug, Clone, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -439,18 +453,12 @@ impl GvasFile {
                         Cursor::new(read_bytes(cursor, decompresed_length)?)
                     }
                     PalworldCompressionType::Zlib => {
-                        let mut decoder = ZlibDecoder::new(cursor);
-
-                        Cursor::new(read_bytes(&mut decoder, decompresed_length)?)
+                        Cursor::new(decompress(cursor, decompresed_length)?)
                     }
                     PalworldCompressionType::ZlibTwice => {
                         let decoder = ZlibDecoder::new(cursor);
-                        let mut decoder = ZlibDecoder::new(decoder);
-
-                        let mut zlib_data = Vec::new();
-                        decoder.read_to_end(&mut zlib_data)?;
 
-                        Cursor::new(zlib_data)
+                        Cursor::new(decompress(decoder, decompresed_length)?)
                     }
                 }
             }
-- 
2.43.0


From ec4bd15d7f7a345973b4acf22ec85be4edd3b06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:35 +0000
Subject: [PATCH 18/19] fix: limit the nesting depth of properties and texts

A small file with deeply nested structs or texts overflowed the stack.
---
 src/properties/mod.rs           |  9 ++++++
 src/properties/text_property.rs | 52 +++++++++++++++++++++++++--------
 2 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 68a8af3..876768d 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -433,6 +433,9 @@ macro_rules! make_matcher {
 
 pub(crate) use make_matcher;
 
+/// Maximum length of `PropertyOptions::properties_stack` while reading.
+const MAX_PROPERTY_DEPTH: usize = 100;
+
 /// Property options used for reading and writing.
 pub struct PropertyOptions<'a> {
     /// Hints about property types.
@@ -557,6 +560,12 @@ impl Property {
         suggested_length: Option<u32>,
     ) -> Result<Self, Error> {
         let _stack_entry = ScopedStackEntry::new(options.properties_stack, value_type.to_string());
+        if options.properties_stack.len() > MAX_PROPERTY_DEPTH {
+            Err(DeserializeError::invalid_property(
+                "Properties are nested too deeply",
+                cursor,
+            ))?
+        }
         match value_type {
             "Int8Property" => Ok(Int8Property::read(cursor, include_header)?.into()),
             "ByteProperty" => {
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 69beb1a..55b9f27 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -69,6 +69,9 @@ impl PropertyTrait for TextProperty {
     }
 }
 
+/// Maximum number of texts nested in each other while reading.
+const MAX_TEXT_DEPTH: usize = 32;
+
 /// FText
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -121,8 +124,22 @@ impl FText {
     /// Read [`FText`] from a cursor
     #[inline]
     pub fn read<R: Read + Seek>(cursor: &mut R, options: &PropertyOptions) -> Result<Self, Error> {
+        Self::read_nested(cursor, options, 0)
+    }
+
+    fn read_nested<R: Read + Seek>(
+        cursor: &mut R,
+        options: &PropertyOptions,
+        depth: usize,
+    ) -> Result<Self, Error> {
+        if depth >= MAX_TEXT_DEPTH {
+            Err(DeserializeError::invalid_property(
+                "Texts are nested too deeply",
+                cursor,
+            ))?
+        }
         let flags = cursor.read_u32::<LittleEndian>()?;
-        let history = FTextHistory::read(cursor, options)?;
+        let history = FTextHistory::read_nested(cursor, options, depth + 1)?;
 
         Ok(FText { flags, history })
     }
@@ -305,6 +322,14 @@ impl FTextHistory {
     /// Read [`FTextHistory`] from a cursor
     #[inline]
     pub fn read<R: Read + Seek>(cursor: &mut R, options: &PropertyOptions) -> Result<Self, Error> {
+        Self::read_nested(cursor, options, 0)
+    }
+
+    fn read_nested<R: Read + Seek>(
+        cursor: &mut R,
+        options: &PropertyOptions,
+        depth: usize,
+    ) -> Result<Self, Error> {
         let history_type = cursor.read_enum()?;
 
         Ok(match history_type {
@@ -337,14 +362,14 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::NamedFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth)?);
 
                 let argument_count = cursor.read_u32::<LittleEndian>()?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
-                    let value = FormatArgumentValue::read(cursor, options)?;
+                    let value = FormatArgumentValue::read(cursor, options, depth)?;
                     if arguments.insert(key, value).is_some() {
                         Err(DeserializeError::invalid_property(
                             "Duplicate format argument",
@@ -359,13 +384,13 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::OrderedFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth)?);
 
                 let count = cursor.read_u32::<LittleEndian>()?;
                 let mut arguments = Vec::new();
 
                 for _ in 0..count {
-                    arguments.push(FormatArgumentValue::read(cursor, options)?);
+                    arguments.push(FormatArgumentValue::read(cursor, options, depth)?);
                 }
 
                 FTextHistory::OrderedFormat {
@@ -374,13 +399,13 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::ArgumentFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth)?);
                 let count = cursor.read_u32::<LittleEndian>()?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
-                    let value = FormatArgumentValue::read(cursor, options)?;
+                    let value = FormatArgumentValue::read(cursor, options, depth)?;
                     if arguments.insert(key, value).is_some() {
                         Err(DeserializeError::invalid_property(
                             "Duplicate format argument",
@@ -395,7 +420,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::AsNumber => {
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -413,7 +438,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::AsPercent => {
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -433,7 +458,7 @@ impl FTextHistory {
             TextHistoryType::AsCurrency => {
                 let currency_code = cursor.read_fstring()?;
 
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -497,7 +522,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::Transform => {
-                let source_text = Box::new(FText::read(cursor, options)?);
+                let source_text = Box::new(FText::read_nested(cursor, options, depth)?);
                 let transform_type = cursor.read_enum()?;
 
                 FTextHistory::Transform {
@@ -778,6 +803,7 @@ impl FormatArgumentValue {
     pub(crate) fn read<R: Read + Seek>(
         cursor: &mut R,
         options: &PropertyOptions,
+        depth: usize,
     ) -> Result<Self, Error> {
         let format_argument_type = cursor.read_enum()?;
 
@@ -800,7 +826,9 @@ impl FormatArgumentValue {
             FormatArgumentType::Double => {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
-            FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
+            FormatArgumentType::Text => {
+                FormatArgumentValue::Text(FText::read_nested(cursor, options, depth)?)
+            }
             FormatArgumentType::Gender => Err(DeserializeError::invalid_property(
                 "unimplemented format argument type: Gender",
                 cursor,
-- 
2.43.0


From e39f53d8586499f336a240bb483c0cfb9c822562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:09 +0000
Subject: [PATCH 19/19] fix: map the newest engine version to the newest editor
 object version

The table of editor object versions gave the newest engine version the number
42, which is larger than the number after the newest one (41). No editor object
version has that number. It now names the newest version there is.
---
 src/custom_version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/custom_version.rs b/src/custom_version.rs
index b4755c2..23b2de8 100644
--- a/src/custom_version.rs
+++ b/src/custom_version.rs
@@ -249,7 +249,7 @@ impl_custom_version_trait!(
     FEditorObjectVersion,
     "FEditorObjectVersion",
     Guid::from_u32([0xE4B068ED, 0xF49442E9, 0xA231DA0B, 0x2E46BB41]),
-    VER_UE4_AUTOMATIC_VERSION: LatestVersion,
+    VER_UE4_AUTOMATIC_VERSION: SkeletalMeshSourceDataSupport16bitOfMaterialNumber,
     VER_UE4_AUTOMATIC_VERSION_PLUS_ONE: VersionPlusOne,
     VER_UE4_26: SkeletalMeshSourceDataSupport16bitOfMaterialNumber,
     VER_UE4_25: SkeletalMeshMoveEditorSourceDataToPrivateAsset,
-- 
2.43.0

