From f222caf07f98aab7a9c649e93046071349ad2fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 01/15] fix: return an error instead of overflowing on
 out-of-range dates

Reading a date whose year or ordinal does not fit after the offset is added
panicked (debug) or wrapped around to a bogus date (release).
---
 dlhn/src/date.rs        | 6 ++++--
 dlhn/src/format/date.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dlhn/src/date.rs b/dlhn/src/date.rs
index e5a2b57..650a91a 100644
--- a/dlhn/src/date.rs
+++ b/dlhn/src/date.rs
@@ -61,11 +61,13 @@ impl<'de> Visitor<'de> for DateVisitor {
         let year = seq
             .next_element::<i32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .checked_add(DATE_YEAR_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .checked_add(DATE_ORDINAL_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         Ok(Date { year, ordinal })
     }
 }
diff --git a/dlhn/src/format/date.rs b/dlhn/src/format/date.rs
index d5d308d..6749844 100644
--- a/dlhn/src/format/date.rs
+++ b/dlhn/src/format/date.rs
@@ -25,11 +25,13 @@ impl<'de> Visitor<'de> for DateVisitor {
         let year = seq
             .next_element::<i32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .checked_add(DATE_YEAR_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .checked_add(DATE_ORDINAL_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let date = Date::from_ordinal_date(year, ordinal)
             .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?;
         Ok(date)
-- 
2.43.0


From 63b296f361fb76428d4e2f3dc49230b668b714be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 02/15] fix: return an error instead of panicking on
 out-of-range date-times

Adding the nanoseconds to a timestamp at the end of the supported range
panicked while decoding and while converting DateTime to OffsetDateTime.
---
 dlhn/src/date_time.rs        | 5 +++--
 dlhn/src/format/date_time.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dlhn/src/date_time.rs b/dlhn/src/date_time.rs
index 41af62b..552c704 100644
--- a/dlhn/src/date_time.rs
+++ b/dlhn/src/date_time.rs
@@ -24,8 +24,9 @@ impl std::convert::TryInto<OffsetDateTime> for DateTime {
 
     fn try_into(self) -> Result<OffsetDateTime, Self::Error> {
         OffsetDateTime::from_unix_timestamp(self.unix_timestamp)
-            .map(|v| v + (self.nanosecond as i64).nanoseconds())
-            .or(Err(()))
+            .or(Err(()))?
+            .checked_add((self.nanosecond as i64).nanoseconds())
+            .ok_or(())
     }
 }
 
diff --git a/dlhn/src/format/date_time.rs b/dlhn/src/format/date_time.rs
index 44e4bbb..4d757dc 100644
--- a/dlhn/src/format/date_time.rs
+++ b/dlhn/src/format/date_time.rs
@@ -25,9 +25,10 @@ impl<'de> Visitor<'de> for OffsetDateTimeVisitor {
         let nanosecond = seq
             .next_element::<u32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
-        Ok(OffsetDateTime::from_unix_timestamp(unix_timestamp)
+        OffsetDateTime::from_unix_timestamp(unix_timestamp)
             .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?
-            + (nanosecond as i64).nanoseconds())
+            .checked_add((nanosecond as i64).nanoseconds())
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))
     }
 }
 
-- 
2.43.0


From e557b6f2d72b37aed6fab7970af6bc33041e8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 03/15] fix: do not preallocate whatever array length a body
 claims

Body::deserialize reserved room for the length found in the input before
reading any element: a damaged length panicked with a capacity overflow or
aborted the process when the allocation failed.
---
 dlhn/src/body/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/body/mod.rs b/dlhn/src/body/mod.rs
index 3dcaba0..dd2c304 100644
--- a/dlhn/src/body/mod.rs
+++ b/dlhn/src/body/mod.rs
@@ -1,7 +1,10 @@
 use crate::{de::Error, BigDecimal, BigInt, BigUint, Date, DateTime, Deserializer, Header};
 use serde::{ser::SerializeTuple, Deserialize, Serialize};
 use serde_bytes::ByteBuf;
-use std::{collections::BTreeMap, io::Read};
+use std::{cmp::min, collections::BTreeMap, io::Read};
+
+// The length of an array comes from the input, so it must not be trusted when allocating.
+const MAX_PREALLOCATION: u64 = 1024;
 
 #[derive(Clone, Debug, PartialEq)]
 pub enum Body {
@@ -113,7 +116,7 @@ impl Body {
             Header::Binary => ByteBuf::deserialize(deserializer).map(|v| Self::Binary(v)),
             Header::Array(inner) => {
                 let len = u64::deserialize(&mut *deserializer)?;
-                let mut buf = Vec::with_capacity(len as usize);
+                let mut buf = Vec::with_capacity(min(len, MAX_PREALLOCATION) as usize);
                 for _ in 0..len {
                     buf.push(Self::deserialize(inner, deserializer)?);
                 }
-- 
2.43.0


From 05a1600ea61ed2a55ea4cb1c476c8d2c52392a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 04/15] fix: bound the nesting and preallocation of headers
 being read

A run of nested optional, array, map or tuple codes overflowed the stack and
aborted the process, and every nested tuple or enum code reserved room for
the full member count it claimed.
---
 dlhn/src/header/de.rs | 57 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/dlhn/src/header/de.rs b/dlhn/src/header/de.rs
index e0002c9..a9b7f58 100644
--- a/dlhn/src/header/de.rs
+++ b/dlhn/src/header/de.rs
@@ -1,6 +1,13 @@
 use super::Header;
 use crate::PrefixVarint;
-use std::io::{ErrorKind, Read, Result};
+use std::{
+    cmp::min,
+    io::{ErrorKind, Read, Result},
+};
+
+// A header comes from the input, so neither its nesting nor its sizes can be trusted.
+const MAX_DEPTH: usize = 128;
+const MAX_PREALLOCATION: u16 = 256;
 
 pub trait DeserializeHeader<R: Read> {
     fn deserialize_header(&mut self) -> Result<Header>;
@@ -8,13 +15,41 @@ pub trait DeserializeHeader<R: Read> {
 
 impl<R: Read> DeserializeHeader<R> for R {
     fn deserialize_header(&mut self) -> Result<Header> {
+        HeaderReader {
+            reader: self,
+            depth: 0,
+        }
+        .read_header()
+    }
+}
+
+struct HeaderReader<'a, R: Read> {
+    reader: &'a mut R,
+    depth: usize,
+}
+
+impl<'a, R: Read> HeaderReader<'a, R> {
+    fn read_inner_header(&mut self) -> Result<Header> {
+        if self.depth >= MAX_DEPTH {
+            return Err(std::io::Error::new(
+                ErrorKind::InvalidData,
+                "header is nested too deeply",
+            ));
+        }
+        self.depth += 1;
+        let header = self.read_header();
+        self.depth -= 1;
+        header
+    }
+
+    fn read_header(&mut self) -> Result<Header> {
         let mut buf = [0u8; 1];
-        self.read_exact(&mut buf)?;
+        self.reader.read_exact(&mut buf)?;
 
         match buf[0] {
             super::UNIT_CODE => Ok(Header::Unit),
             super::OPTIONAL_CODE => {
-                let inner = self.deserialize_header()?;
+                let inner = self.read_inner_header()?;
                 Ok(Header::Optional(Box::new(inner)))
             }
             super::BOOLEAN_CODE => Ok(Header::Boolean),
@@ -36,14 +71,14 @@ impl<R: Read> DeserializeHeader<R> for R {
             super::STRING_CODE => Ok(Header::String),
             super::BINARY_CODE => Ok(Header::Binary),
             super::ARRAY_CODE => {
-                let inner = self.deserialize_header()?;
+                let inner = self.read_inner_header()?;
                 Ok(Header::Array(Box::new(inner)))
             }
             super::TUPLE_CODE => {
-                let size = u16::decode_prefix_varint(self)?;
-                let mut vec = Vec::with_capacity(size as usize);
+                let size = u16::decode_prefix_varint(self.reader)?;
+                let mut vec = Vec::with_capacity(min(size, MAX_PREALLOCATION) as usize);
                 for _ in 0..size {
-                    vec.push(self.deserialize_header()?);
+                    vec.push(self.read_inner_header()?);
                 }
                 Ok(Header::Tuple(vec))
             }
@@ -56,14 +91,14 @@ impl<R: Read> DeserializeHeader<R> for R {
             //     Ok(Header::Struct(buf))
             // }
             super::MAP_CODE => {
-                let inner = self.deserialize_header()?;
+                let inner = self.read_inner_header()?;
                 Ok(Header::Map(Box::new(inner)))
             }
             super::ENUM_CODE => {
-                let size = u16::decode_prefix_varint(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
+                let size = u16::decode_prefix_varint(self.reader)?;
+                let mut buf = Vec::with_capacity(min(size, MAX_PREALLOCATION) as usize);
                 for _ in 0..size {
-                    buf.push(self.deserialize_header()?);
+                    buf.push(self.read_inner_header()?);
                 }
                 Ok(Header::Enum(buf))
             }
-- 
2.43.0


From 663dbecb1b0db1b100860e34725e85ab73c592db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 05/15] fix: read enum variant indexes as the u32 they are
 written as

The varint layouts of u16 and u32 differ from 16384 on, so values of later
variants could be written but not read back.
---
 dlhn/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 651ba33..94cd94d 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -371,7 +371,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        self.deserialize_u16(visitor)
+        self.deserialize_u32(visitor)
     }
 
     fn deserialize_ignored_any<V>(self, _: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From c882dfc6eb78df5ff68f1a1a0d2288643f0f4b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 06/15] fix: read types that ask for str or bytes instead of
 panicking

Such values (for example serde_bytes::ByteArray) were written normally but
hit todo!() when read.
---
 dlhn/src/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 94cd94d..0be9041 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -200,11 +200,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         )
     }
 
-    fn deserialize_str<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_string(visitor)
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -236,11 +236,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         }
     }
 
-    fn deserialize_bytes<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_byte_buf(visitor)
     }
 
     fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 1198f69fc5f5fa13db049c1978cb20a9f2585038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:19 +0000
Subject: [PATCH 07/15] fix: report types that need a self-describing body as
 errors

Reading untagged, internally tagged or flattened types panicked with todo!().
---
 dlhn/src/de.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 0be9041..4512071 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -63,7 +63,9 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom(
+            "bodies do not describe their own type, so it must be known to read them",
+        ))
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -378,7 +380,9 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom(
+            "bodies do not describe their own type, so it must be known to read them",
+        ))
     }
 
     #[inline]
-- 
2.43.0


From 44502111ba2b28b683071a3ab981763a4c96c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 08/15] fix: treat map keys as binary like the rest of the body

The key serializer kept the human-readable default, so keys such as Ipv4Addr
were written as text although they are read in their binary form: the map was
silently written as bytes that cannot be read back. They are now refused.
---
 dlhn/src/ser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index f33e10e..3d28782 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -572,6 +572,11 @@ impl<'a, W: Write> ser::Serializer for MapKeySerializer<'a, W> {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Err(Error::UnsupportedKeyType)
     }
+
+    #[inline]
+    fn is_human_readable(&self) -> bool {
+        false
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9509ff81b3ca49917e25cab65af198eea8e98341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 09/15] fix: refuse strings of several characters where a char
 is expected

The characters after the first were dropped silently.
---
 dlhn/src/de.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 4512071..0dfaf99 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -193,13 +193,12 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_char(
-            String::deserialize(self)?
-                .chars()
-                .into_iter()
-                .next()
-                .ok_or(Error::CharSize)?,
-        )
+        let s = String::deserialize(self)?;
+        let mut chars = s.chars();
+        match (chars.next(), chars.next()) {
+            (Some(c), None) => visitor.visit_char(c),
+            _ => Err(Error::CharSize),
+        }
     }
 
     fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From aa8c0e6284c4b0a8bb95fd9b517b8629f7d3d078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 10/15] fix: refuse to write structs with conditionally skipped
 fields

Bodies contain no field names, so a field left out by skip_serializing_if
silently shifted every following byte.
---
 dlhn/src/ser.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index 3d28782..d5170a3 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -371,6 +371,13 @@ impl<'a, W: Write> ser::SerializeStruct for &'a mut Serializer<W> {
         value.serialize(&mut **self)
     }
 
+    fn skip_field(&mut self, key: &'static str) -> Result<(), Self::Error> {
+        Err(ser::Error::custom(format_args!(
+            "field `{}` cannot be skipped because bodies contain no field names",
+            key
+        )))
+    }
+
     fn end(self) -> Result<Self::Ok, Self::Error> {
         Ok(())
     }
@@ -391,6 +398,13 @@ impl<'a, W: Write> ser::SerializeStructVariant for &'a mut Serializer<W> {
         value.serialize(&mut **self)
     }
 
+    fn skip_field(&mut self, key: &'static str) -> Result<(), Self::Error> {
+        Err(ser::Error::custom(format_args!(
+            "field `{}` cannot be skipped because bodies contain no field names",
+            key
+        )))
+    }
+
     fn end(self) -> Result<Self::Ok, Self::Error> {
         Ok(())
     }
-- 
2.43.0


From 10c4408760600c1a48db9573442f7f365a8ec5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 11/15] fix: refuse headers with more members than the count
 can hold

The member count of a tuple or enum header was truncated to 16 bits, so the
header read back had fewer members.
---
 dlhn/src/header/ser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/header/ser.rs b/dlhn/src/header/ser.rs
index 979635e..9f03c06 100644
--- a/dlhn/src/header/ser.rs
+++ b/dlhn/src/header/ser.rs
@@ -3,7 +3,8 @@ use crate::{BigDecimal, BigInt, BigUint, Date, DateTime, PrefixVarint};
 use serde_bytes::{ByteBuf, Bytes};
 use std::{
     collections::{BTreeMap, HashMap},
-    io::{Result, Write},
+    convert::TryFrom,
+    io::{Error, ErrorKind, Result, Write},
 };
 
 pub trait SerializeHeader {
@@ -293,9 +294,15 @@ impl Header {
     }
 
     fn serialize_inner_vec<W: Write>(code: u8, inner: &Vec<Header>, writer: &mut W) -> Result<()> {
+        let len = u16::try_from(inner.len()).map_err(|_| {
+            Error::new(
+                ErrorKind::InvalidInput,
+                "header has more than 65535 inner headers",
+            )
+        })?;
         writer.write_all(&[code])?;
         let mut buf = [0u8; u16::PREFIX_VARINT_BUF_SIZE];
-        let size = (inner.len() as u16).encode_prefix_varint(&mut buf);
+        let size = len.encode_prefix_varint(&mut buf);
         writer.write_all(&buf[..size])?;
         for v in inner {
             v.serialize(writer)?
-- 
2.43.0


From 5cc57bb7b04c1349b4a1ac1a03482b35718ef3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 12/15] fix: refuse sequences and maps of unknown length

Their count was left out, so what had been written silently read back as
something else (serde(flatten), collect_seq over filtered iterators). The big
number and date-time types relied on this to write a fixed number of elements
without a count; they now write tuples, as they already read them.
---
 dlhn/src/big_decimal.rs        |  5 +++--
 dlhn/src/big_int.rs            |  4 ++--
 dlhn/src/big_uint.rs           |  4 ++--
 dlhn/src/format/big_decimal.rs |  4 ++--
 dlhn/src/format/big_int.rs     |  4 ++--
 dlhn/src/format/big_uint.rs    |  4 ++--
 dlhn/src/format/date_time.rs   |  4 ++--
 dlhn/src/ser.rs                | 12 ++++++------
 8 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/dlhn/src/big_decimal.rs b/dlhn/src/big_decimal.rs
index 34fe7a7..b312c08 100644
--- a/dlhn/src/big_decimal.rs
+++ b/dlhn/src/big_decimal.rs
@@ -3,7 +3,7 @@ use crate::de::Error;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserialize, Serialize,
 };
 
@@ -46,7 +46,8 @@ impl Serialize for BigDecimal {
     where
         S: serde::Serializer,
     {
-        let mut seq = serializer.serialize_seq(None)?;
+        let mut seq =
+            serializer.serialize_tuple(if self.signed_bytes.is_empty() { 1 } else { 2 })?;
 
         if self.signed_bytes == [] {
             seq.serialize_element(&0u8)?;
diff --git a/dlhn/src/big_int.rs b/dlhn/src/big_int.rs
index 7406693..5601798 100644
--- a/dlhn/src/big_int.rs
+++ b/dlhn/src/big_int.rs
@@ -3,7 +3,7 @@ use crate::de::Error;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserialize, Serialize,
 };
 
@@ -33,7 +33,7 @@ impl Serialize for BigInt {
     where
         S: serde::Serializer,
     {
-        let mut seq = serializer.serialize_seq(None)?;
+        let mut seq = serializer.serialize_tuple(1)?;
 
         seq.serialize_element(&self.0)?;
 
diff --git a/dlhn/src/big_uint.rs b/dlhn/src/big_uint.rs
index 14a84de..ca4871c 100644
--- a/dlhn/src/big_uint.rs
+++ b/dlhn/src/big_uint.rs
@@ -3,7 +3,7 @@ use crate::de::Error;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserialize, Serialize,
 };
 
@@ -33,7 +33,7 @@ impl Serialize for BigUint {
     where
         S: serde::Serializer,
     {
-        let mut seq = serializer.serialize_seq(None)?;
+        let mut seq = serializer.serialize_tuple(1)?;
 
         seq.serialize_element(&self.0)?;
 
diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 3b7c0cf..26b23f7 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -4,7 +4,7 @@ use num_bigint::BigInt;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 
@@ -39,7 +39,7 @@ impl<'de> Visitor<'de> for BigDecimalVisitor {
 }
 
 pub fn serialize<T: Serializer>(value: &BigDecimal, serializer: T) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut seq = serializer.serialize_tuple(if value.is_zero() { 1 } else { 2 })?;
 
     if value.is_zero() {
         seq.serialize_element(&0u8)?;
diff --git a/dlhn/src/format/big_int.rs b/dlhn/src/format/big_int.rs
index 7391d11..cc875b6 100644
--- a/dlhn/src/format/big_int.rs
+++ b/dlhn/src/format/big_int.rs
@@ -3,7 +3,7 @@ use num_bigint::BigInt;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 
@@ -28,7 +28,7 @@ impl<'de> Visitor<'de> for BigIntVisitor {
 }
 
 pub fn serialize<T: Serializer>(big_int: &BigInt, serializer: T) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut seq = serializer.serialize_tuple(1)?;
 
     if big_int.is_zero() {
         seq.serialize_element(&0u8)?;
diff --git a/dlhn/src/format/big_uint.rs b/dlhn/src/format/big_uint.rs
index 2e59501..6d1c6cc 100644
--- a/dlhn/src/format/big_uint.rs
+++ b/dlhn/src/format/big_uint.rs
@@ -3,7 +3,7 @@ use num_bigint::BigUint;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 
@@ -28,7 +28,7 @@ impl<'de> Visitor<'de> for BigUintVisitor {
 }
 
 pub fn serialize<T: Serializer>(big_uint: &BigUint, serializer: T) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut seq = serializer.serialize_tuple(1)?;
 
     if big_uint.is_zero() {
         seq.serialize_element(&0u8)?;
diff --git a/dlhn/src/format/date_time.rs b/dlhn/src/format/date_time.rs
index 4d757dc..bb73cf0 100644
--- a/dlhn/src/format/date_time.rs
+++ b/dlhn/src/format/date_time.rs
@@ -1,7 +1,7 @@
 use crate::de::Error;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 use time::{ext::NumericalDuration, OffsetDateTime};
@@ -36,7 +36,7 @@ pub fn serialize<T: Serializer>(
     date_time: &OffsetDateTime,
     serializer: T,
 ) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut seq = serializer.serialize_tuple(2)?;
     seq.serialize_element(&date_time.unix_timestamp())?;
     seq.serialize_element(&date_time.time().nanosecond())?;
     seq.end()
diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index d5170a3..30f6b1c 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -33,6 +33,10 @@ impl Display for Error {
 
 impl std::error::Error for Error {}
 
+fn unknown_length() -> Error {
+    ser::Error::custom("sequences and maps of unknown length are not supported")
+}
+
 pub struct Serializer<W: Write> {
     output: W,
 }
@@ -203,9 +207,7 @@ impl<'a, W: Write> ser::Serializer for &'a mut Serializer<W> {
     }
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        if let Some(len) = len {
-            len.serialize(&mut *self)?;
-        }
+        len.ok_or_else(unknown_length)?.serialize(&mut *self)?;
         Ok(self)
     }
 
@@ -233,9 +235,7 @@ impl<'a, W: Write> ser::Serializer for &'a mut Serializer<W> {
     }
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        if let Some(len) = len {
-            len.serialize(&mut *self)?;
-        }
+        len.ok_or_else(unknown_length)?.serialize(&mut *self)?;
         Ok(self)
     }
 
-- 
2.43.0


From 0c709acc9fdf42092915f998402e03cfb98bbe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 13/15] fix: leave skipped fields of enum variants out of
 derived headers

serde does not write fields marked skip or skip_serializing, and structs
already left them out, but enum variants listed them (and accepted
skip_serializing_if), so the header did not match the bodies.
---
 dlhn_derive/src/lib.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 180b4ce..10f5a15 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -81,8 +81,25 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                     .into();
                 }
 
+                for field in variant.fields.iter() {
+                    if has_skip_serializing_if(field.attrs.iter()) {
+                        return syn::Error::new(
+                            Span::call_site(),
+                            "skip_serializing_if is not supported",
+                        )
+                        .to_compile_error()
+                        .into();
+                    }
+                }
+
                 if !is_skip_field(variant.attrs.iter()) {
-                    if variant.fields.is_empty() {
+                    let fields_len = variant
+                        .fields
+                        .iter()
+                        .filter(|field| !is_skip_field(field.attrs.iter()))
+                        .count();
+
+                    if fields_len == 0 {
                         outers.push(
                             Group::new(Delimiter::Bracket, proc_macro2::TokenStream::new())
                                 .into_token_stream(),
@@ -93,15 +110,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                         )
                         .into_token_stream()]);
                     } else {
-                        if variant.fields.len() > 1 {
+                        if fields_len > 1 {
                             match &variant.fields {
                                 syn::Fields::Named(fields) => {
                                     // let mut buf = vec![STRUCT_CODE];
                                     let mut buf = vec![TUPLE_CODE];
-                                    buf.append(
-                                        &mut (variant.fields.len() as u16)
-                                            .encode_prefix_varint_vec(),
-                                    );
+                                    buf.append(&mut (fields_len as u16).encode_prefix_varint_vec());
                                     outers.push(
                                         proc_macro2::TokenStream::from_str(
                                             format!("{:?}", buf).as_str(),
@@ -111,16 +125,15 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
 
                                     let mut field_types = Vec::new();
                                     fields.named.iter().for_each(|field| {
-                                        field_types.push(field.ty.to_token_stream());
+                                        if !is_skip_field(field.attrs.iter()) {
+                                            field_types.push(field.ty.to_token_stream());
+                                        }
                                     });
                                     inners.push(field_types);
                                 }
                                 syn::Fields::Unnamed(fields) => {
                                     let mut buf = vec![TUPLE_CODE];
-                                    buf.append(
-                                        &mut (variant.fields.len() as u16)
-                                            .encode_prefix_varint_vec(),
-                                    );
+                                    buf.append(&mut (fields_len as u16).encode_prefix_varint_vec());
                                     outers.push(
                                         proc_macro2::TokenStream::from_str(
                                             format!("{:?}", buf).as_str(),
@@ -132,6 +145,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                                         fields
                                             .unnamed
                                             .iter()
+                                            .filter(|field| !is_skip_field(field.attrs.iter()))
                                             .map(|field| field.ty.to_token_stream())
                                             .collect(),
                                     );
@@ -145,7 +159,9 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                             );
                             let mut field_types = Vec::new();
                             variant.fields.iter().for_each(|field| {
-                                field_types.push(field.ty.to_token_stream());
+                                if !is_skip_field(field.attrs.iter()) {
+                                    field_types.push(field.ty.to_token_stream());
+                                }
                             });
                             inners.push(field_types);
                         }
-- 
2.43.0


From 39693c94749635527c9ca8034472c7c33bf4615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 14/15] fix: write decimals of any scale without scaling them

---
 dlhn/src/big_decimal.rs        | 21 +++++++++++++++++++--
 dlhn/src/format/big_decimal.rs |  4 ++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/dlhn/src/big_decimal.rs b/dlhn/src/big_decimal.rs
index b312c08..f672e64 100644
--- a/dlhn/src/big_decimal.rs
+++ b/dlhn/src/big_decimal.rs
@@ -13,7 +13,24 @@ pub struct BigDecimal {
     scale: i64,
 }
 
-#[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
+/// Digits without trailing zeros, and their scale. Unlike `BigDecimal::normalized`, its cost depends
+/// on the digits only: that one compares with zero by scaling, which never ends for a huge scale.
+#[cfg(all(feature = "num-traits", feature = "num-bigint", feature = "bigdecimal"))]
+pub(crate) fn normalize(v: &bigdecimal::BigDecimal) -> (num_bigint::BigInt, i64) {
+    let (bigint, scale) = v.as_bigint_and_exponent();
+    let (sign, mut digits) = bigint.to_radix_be(10);
+    let zeros = digits.iter().rev().take_while(|&&digit| digit == 0).count();
+    match scale.checked_sub(zeros as i64) {
+        Some(scale) if zeros > 0 && !bigint.is_zero() => {
+            digits.truncate(digits.len() - zeros);
+            let bigint = num_bigint::BigInt::from_radix_be(sign, &digits, 10).unwrap_or(bigint);
+            (bigint, scale)
+        }
+        _ => (bigint, scale),
+    }
+}
+
+#[cfg(all(feature = "num-traits", feature = "num-bigint", feature = "bigdecimal"))]
 impl From<bigdecimal::BigDecimal> for BigDecimal {
     fn from(v: bigdecimal::BigDecimal) -> Self {
         if v.is_zero() {
@@ -22,7 +39,7 @@ impl From<bigdecimal::BigDecimal> for BigDecimal {
                 scale: 0,
             }
         } else {
-            let (bigint, scale) = v.normalized().into_bigint_and_exponent();
+            let (bigint, scale) = normalize(&v);
             Self {
                 signed_bytes: bigint.to_signed_bytes_le(),
                 scale,
diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 26b23f7..f6bfeb9 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -1,4 +1,4 @@
-use crate::de::Error;
+use crate::{big_decimal::normalize, de::Error};
 use bigdecimal::BigDecimal;
 use num_bigint::BigInt;
 use num_traits::Zero;
@@ -44,7 +44,7 @@ pub fn serialize<T: Serializer>(value: &BigDecimal, serializer: T) -> Result<T::
     if value.is_zero() {
         seq.serialize_element(&0u8)?;
     } else {
-        let (bigint, scale) = value.normalized().into_bigint_and_exponent();
+        let (bigint, scale) = normalize(value);
         seq.serialize_element(&bigint.to_signed_bytes_le())?;
         seq.serialize_element(&scale)?;
     }
-- 
2.43.0


From d83a2052d1eef88f719d6294904f90d0f57e05eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 15/15] fix: read a decimal's scale whenever digits are present
 in both representations

---
 dlhn/src/format/big_decimal.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index f6bfeb9..7c2d4f7 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -21,16 +21,14 @@ impl<'de> Visitor<'de> for BigDecimalVisitor {
     where
         A: SeqAccess<'de>,
     {
-        let digits = BigInt::from_signed_bytes_le(
-            seq.next_element::<Vec<u8>>()?
-                .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-                .as_slice(),
-        );
-        if digits.is_zero() {
-            Ok(BigDecimal::from(digits))
+        let signed_bytes = seq
+            .next_element::<Vec<u8>>()?
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
+        if signed_bytes.is_empty() {
+            Ok(BigDecimal::zero())
         } else {
             Ok(BigDecimal::new(
-                digits,
+                BigInt::from_signed_bytes_le(signed_bytes.as_slice()),
                 seq.next_element::<i64>()?
                     .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?,
             ))
-- 
2.43.0

