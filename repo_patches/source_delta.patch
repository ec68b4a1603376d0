From f32684a6c00733e15bee5686454d8bf19ed8216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 01/20] fix: reject packets whose id or attachment count does
 not fit in 64 bits

parse::<u64>().unwrap() panicked on such input from the server.
---
 socket-io-protocol/src/socket/de.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 6fe4642..6f9a28a 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -80,9 +80,17 @@ fn parse_text(text: OwnedSubslice<String>) -> Result<Parse, Error> {
             _ => unreachable!(),
         }
     };
-    let attachments = captures.get(3).map(|x| x.as_str().parse::<u64>().unwrap());
+    // The numbers may not fit in a u64
+    let parse_num = |idx: usize| {
+        captures
+            .get(idx)
+            .map(|x| x.as_str().parse::<u64>())
+            .transpose()
+            .map_err(|_| Error::InvalidMessage(text.to_string()))
+    };
+    let attachments = parse_num(3)?;
     let namespace = captures.get(5).map(|x| x.range());
-    let id = captures.get(6).map(|x| x.as_str().parse::<u64>().unwrap());
+    let id = parse_num(6)?;
     let args = match captures.get(7) {
         Some(m) => {
             let mut args = parse_args(m.as_str())?;
-- 
2.43.0


From 99cf9c8bd152aaf3d51ce5b88ad4de23bf9535e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 02/20] fix: end the namespace at the first comma

The greedy `.+` swallowed arguments containing ",[" or ",<digits>[", so
valid packets such as `2/nsp,["e",[1,2]]` were rejected or misread.
---
 socket-io-protocol/src/socket/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 6f9a28a..d5d2196 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -45,7 +45,7 @@ impl DeserializeResult {
 
 lazy_static::lazy_static! {
     static ref DESERIALIZE_RE: Regex = {
-        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/.+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
+        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
         Regex::new(pattern).unwrap()
     };
 }
-- 
2.43.0


From eabd79b7b7221693cd72f7f378149073e39ee60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 03/20] fix: accept line breaks between the arguments of a
 packet

`.` does not match a newline, but JSON allows it as whitespace.
---
 socket-io-protocol/src/socket/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index d5d2196..fdf7ea6 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -45,7 +45,7 @@ impl DeserializeResult {
 
 lazy_static::lazy_static! {
     static ref DESERIALIZE_RE: Regex = {
-        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
+        let pattern = r#"(?s)^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
         Regex::new(pattern).unwrap()
     };
 }
-- 
2.43.0


From 57d8ca2687ff46db47ac68512bc5c3b67377df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 04/20] fix: accept acks without arguments

A server calling its ack function without arguments sends `3<id>[]`, which
was rejected as missing data, as was what PacketBuilder itself produces.
---
 socket-io-protocol/src/socket/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index fdf7ea6..cdcd6f6 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -204,7 +204,8 @@ fn deserialize_event(
     name: &'static str,
     attachments: Vec<OwnedSubslice<Vec<u8>>>,
 ) -> Result<Packet, Error> {
-    if (kind == Kind::Ack && parse.id.is_none()) || parse.args.is_empty() {
+    // An ack may be sent without any arguments, but an event needs at least its name
+    if (kind == Kind::Ack && parse.id.is_none()) || (kind == Kind::Event && parse.args.is_empty()) {
         return Err(Error::MissingData(name, parse.message.to_string()));
     }
     if attachments.len() as u64 != parse.attachments.unwrap_or(0) {
-- 
2.43.0


From 6725f8ee9cb73f7e6f5e22bcd8e957130dc401c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 05/20] fix: do not panic on arguments that only fail to parse
 when read

Parsing a packet does not look inside the arguments, so lone surrogates, out
of range numbers, deep nesting or a bad placeholder index are first noticed by
to_json_value, which unwrapped, as did Display (used when logging a packet).
---
 socket-io-protocol/src/socket/args/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/mod.rs b/socket-io-protocol/src/socket/args/mod.rs
index d816273..e2cad97 100644
--- a/socket-io-protocol/src/socket/args/mod.rs
+++ b/socket-io-protocol/src/socket/args/mod.rs
@@ -63,9 +63,10 @@ impl<'a> Args<'a> {
 
 impl<'a> Arg<'a> {
     pub fn to_json_value(&self) -> Result<Value, Error> {
-        // We can unwrap because if the json was going to fail to deserialize we would have failed
-        // to parse
-        let mut value = serde_json::from_str(self.arg).unwrap();
+        // This can fail even though the packet was parsed: RawValue doesn't check for lone
+        // surrogates, numbers out of range, or too much nesting.
+        let mut value = serde_json::from_str(self.arg)
+            .map_err(|err| Error::JsonDeError(self.arg.to_string(), err))?;
         if !self.attachments.is_empty() {
             fill_placeholders_value(&mut value, &self.attachments)?;
         }
@@ -159,7 +160,11 @@ impl<'a> fmt::Display for Args<'a> {
 
 impl<'a> fmt::Display for Arg<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.to_json_value().unwrap())
+        match self.to_json_value() {
+            Ok(value) => write!(f, "{}", value),
+            // The value can't be represented, show what was received
+            Err(_) => f.write_str(self.arg),
+        }
     }
 }
 
-- 
2.43.0


From 5257e881753f17512b54404ec66dcd69ebe8d02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 06/20] fix: read the first key of a map in a binary packet
 like any other key

To recognize placeholders the first key of every object was read as a borrowed
str and then given to the key type as a str, so that objects whose first key
contains an escape, and maps with integer, bool, option or newtype keys, failed
to deserialize just because the packet has attachments.
---
 .../socket/args/deserialize_attachments.rs    | 122 ++++++++++++++++--
 1 file changed, 111 insertions(+), 11 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index c684fc7..3f4b97f 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -1,14 +1,13 @@
-use std::fmt;
+use std::{borrow::Cow, fmt, marker::PhantomData};
 
 use owned_subslice::OwnedSubslice;
 use paste::paste;
 use serde::{
     de::{
-        value::{BorrowedStrDeserializer, SeqDeserializer},
-        DeserializeSeed, EnumAccess, Error as DeError, MapAccess, SeqAccess, VariantAccess,
-        Visitor,
+        value::SeqDeserializer, DeserializeSeed, EnumAccess, Error as DeError, IntoDeserializer,
+        MapAccess, SeqAccess, Unexpected, VariantAccess, Visitor,
     },
-    Deserialize, Deserializer,
+    forward_to_deserialize_any, Deserialize, Deserializer,
 };
 use serde_json::{Deserializer as JsonDeserializer, Error as JsonError};
 
@@ -97,7 +96,19 @@ where
 {
     map: M,
     buffers: Buffers<'a>,
-    first_key: Option<Option<&'a str>>,
+    first_key: Option<Option<FirstKey<'a>>>,
+}
+
+/// The first key of a map, which we need to look at before we know whether it's a placeholder.
+#[derive(Deserialize)]
+#[serde(transparent)]
+struct FirstKey<'a>(#[serde(borrow)] Cow<'a, str>);
+
+/// Deserializes the first key into the actual key type, in the same way that `serde_json` does it
+/// for the other keys.
+struct FirstKeyDeserializer<'a, E> {
+    key: Cow<'a, str>,
+    error: PhantomData<E>,
 }
 
 macro_rules! deserialize_forward {
@@ -288,11 +299,11 @@ where
     where
         A: MapAccess<'de>,
     {
-        let key: Option<&'de str> = map.next_key()?;
-        if key == Some("_placeholder") {
+        let key: Option<FirstKey<'de>> = map.next_key()?;
+        if key.as_ref().map_or(false, |key| key.0 == "_placeholder") {
             let _: bool = map.next_value()?;
-            let next_key: Option<&'de str> = map.next_key()?;
-            if next_key != Some("num") {
+            let next_key: Option<FirstKey<'de>> = map.next_key()?;
+            if !next_key.map_or(false, |key| key.0 == "num") {
                 return Err(A::Error::custom("_placeholder key present without num key"));
             }
             let num: u64 = map.next_value()?;
@@ -424,7 +435,10 @@ where
     {
         if let Some(key) = self.first_key.take() {
             if let Some(key) = key {
-                let deserializer = BorrowedStrDeserializer::new(key);
+                let deserializer = FirstKeyDeserializer {
+                    key: key.0,
+                    error: PhantomData,
+                };
                 seed.deserialize(deserializer).map(Some)
             } else {
                 Ok(None)
@@ -447,6 +461,92 @@ where
     }
 }
 
+macro_rules! deserialize_number_key {
+    ($($ty:ident)*) => {
+        $(
+            paste!{
+                fn [<deserialize_ $ty>]<V>(self, visitor: V) -> Result<V::Value, E>
+                where
+                    V: Visitor<'de>
+                {
+                    let key = self.key.as_bytes();
+                    let start = key.first().map_or(false, |c| c.is_ascii_digit() || *c == b'-');
+                    let end = key.last().map_or(false, |c| c.is_ascii_digit());
+                    if !start || !end {
+                        return Err(E::invalid_type(Unexpected::Str(&*self.key), &visitor));
+                    }
+                    let mut d = JsonDeserializer::from_reader(key);
+                    let value = d.[<deserialize_ $ty>](visitor).map_err(E::custom)?;
+                    d.end().map_err(E::custom)?;
+                    Ok(value)
+                }
+            }
+        )*
+    };
+}
+
+impl<'de, E> Deserializer<'de> for FirstKeyDeserializer<'de, E>
+where
+    E: DeError,
+{
+    type Error = E;
+
+    deserialize_number_key! { i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 }
+
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.key {
+            Cow::Borrowed(key) => visitor.visit_borrowed_str(key),
+            Cow::Owned(key) => visitor.visit_string(key),
+        }
+    }
+
+    fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match &*self.key {
+            "true" => visitor.visit_bool(true),
+            "false" => visitor.visit_bool(false),
+            key => Err(E::invalid_type(Unexpected::Str(key), &visitor)),
+        }
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(self, _: &'static str, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        let deserializer = self.key.into_deserializer();
+        deserializer.deserialize_enum(name, variants, visitor)
+    }
+
+    forward_to_deserialize_any! {
+        char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct
+        identifier ignored_any
+    }
+}
+
 impl<'b, T> DeserializeSeed<'b> for BinarySeed<'b, T>
 where
     T: DeserializeSeed<'b>,
-- 
2.43.0


From 258d9d24638b75dde3e587dd43f0b758160cdade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 07/20] fix: reject attachments longer than the type they are
 read into

Reading a 4 byte attachment as [u8; 2] or a two field struct silently dropped
the remaining bytes, where the same values in a json array give an error.
---
 .../src/socket/args/deserialize_attachments.rs           | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 3f4b97f..4865698 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -316,9 +316,12 @@ where
             })?;
             match self.access_type {
                 AccessType::Bytes => self.visitor.visit_borrowed_bytes(&*buffer),
-                AccessType::Seq | AccessType::Neither => self
-                    .visitor
-                    .visit_seq(SeqDeserializer::new(buffer.iter().copied())),
+                AccessType::Seq | AccessType::Neither => {
+                    let mut seq = SeqDeserializer::new(buffer.iter().copied());
+                    let value = self.visitor.visit_seq(&mut seq)?;
+                    seq.end()?; // The whole attachment must have been used
+                    Ok(value)
+                }
             }
         } else {
             let map = BinaryMapAccess {
-- 
2.43.0


From 94a65dd931ac8cd0082d86bbc54322c70d61696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 08/20] fix: do not add the binary header to sequences that are
 not all bytes

A sequence starting with u8s and followed by something else was serialized
with an additional first element 4.
---
 socket-io-protocol/src/socket/args/serialize_attachments.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/serialize_attachments.rs b/socket-io-protocol/src/socket/args/serialize_attachments.rs
index 3a3bc94..e7ba46c 100644
--- a/socket-io-protocol/src/socket/args/serialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/serialize_attachments.rs
@@ -389,7 +389,8 @@ where
                 Err(_) => {
                     // The data isn't all u8's
                     let mut seq = s.take().unwrap().serialize_seq(*len)?;
-                    for b in data.iter() {
+                    // The first byte is the engine.io header
+                    for b in data.iter().skip(1) {
                         seq.serialize_element(b)?;
                     }
                     seq.serialize_element(&Wrapper {
-- 
2.43.0


From 7295d5a7089d563478b7bce9dcfaaae4670c141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 09/20] fix: keep the argument list unopened when the first
 argument fails

An ack whose first argument failed to serialize lost its opening bracket and
was sent as invalid json.
---
 socket-io-protocol/src/socket/ser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/ser.rs b/socket-io-protocol/src/socket/ser.rs
index 2977cf8..ee36376 100644
--- a/socket-io-protocol/src/socket/ser.rs
+++ b/socket-io-protocol/src/socket/ser.rs
@@ -101,7 +101,6 @@ impl PacketBuilder {
         cursor.set_position(start_pos as u64);
         if self.first {
             write!(cursor, "[").unwrap();
-            self.first = false;
         } else {
             write!(cursor, ",").unwrap();
         }
@@ -119,6 +118,8 @@ impl PacketBuilder {
         if result.is_err() {
             self.buffer
                 .resize_with(start_pos, || panic!("shrinking vector"));
+        } else {
+            self.first = false;
         }
         result
     }
-- 
2.43.0


From 8ccb0b8822d82a5b34d73e486386781f11ce29af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 10/20] fix: reject text messages before the open packet

All other packets, binary messages included, already were.
---
 socket-io-protocol/src/engine.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket-io-protocol/src/engine.rs b/socket-io-protocol/src/engine.rs
index a15e705..86cc4cd 100644
--- a/socket-io-protocol/src/engine.rs
+++ b/socket-io-protocol/src/engine.rs
@@ -119,6 +119,9 @@ impl Decoder {
                 }
             }
             '4' => {
+                if self.state == State::Initial {
+                    return Err(Error::MessageBeforeOpen);
+                }
                 let len = text.len();
                 Ok(Packet::Message(Message::Text(OwnedSubslice::new(
                     text,
-- 
2.43.0


From d8744ad1a1731b987cb05960eb3197cfe22c01a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 11/20] fix: clamp subslice ends near usize::MAX instead of
 overflowing

---
 owned_subslice/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owned_subslice/src/lib.rs b/owned_subslice/src/lib.rs
index 82c6f52..d8afd6a 100644
--- a/owned_subslice/src/lib.rs
+++ b/owned_subslice/src/lib.rs
@@ -24,7 +24,7 @@ where
 
     pub fn subslice(self, range: Range<usize>) -> Self {
         let start = self.range.start + range.start;
-        let end = std::cmp::min(self.range.start + range.end, self.range.end);
+        let end = std::cmp::min(self.range.start.saturating_add(range.end), self.range.end);
         OwnedSubslice {
             data: self.data,
             range: Range { start, end },
-- 
2.43.0


From 6ab62ab31b679927982e3cbdc7a9572164888846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 12/20] fix: read the fields of a tuple variant from an
 attachment

---
 .../socket/args/deserialize_attachments.rs    | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 4865698..280201a 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -90,6 +90,11 @@ where
     buffers: Buffers<'a>,
 }
 
+struct TupleSeed<V> {
+    len: usize,
+    visitor: V,
+}
+
 struct BinaryMapAccess<'a, M>
 where
     M: MapAccess<'a>,
@@ -397,14 +402,12 @@ where
     where
         T: Visitor<'de>,
     {
-        self.variant.tuple_variant(
-            len,
-            BinaryVisitor {
-                visitor,
-                buffers: self.buffers,
-                access_type: AccessType::Seq,
-            },
-        )
+        // `VariantAccess::tuple_variant` may insist on an array, but the fields can also come from
+        // an attachment.
+        self.variant.newtype_variant_seed(BinarySeed {
+            seed: TupleSeed { len, visitor },
+            buffers: self.buffers,
+        })
     }
 
     fn struct_variant<T>(
@@ -550,6 +553,20 @@ where
     }
 }
 
+impl<'de, V> DeserializeSeed<'de> for TupleSeed<V>
+where
+    V: Visitor<'de>,
+{
+    type Value = V::Value;
+
+    fn deserialize<D>(self, d: D) -> Result<V::Value, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        d.deserialize_tuple(self.len, self.visitor)
+    }
+}
+
 impl<'b, T> DeserializeSeed<'b> for BinarySeed<'b, T>
 where
     T: DeserializeSeed<'b>,
-- 
2.43.0


From a0af3fa1a168ca438252dc40112252fa6b3b3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 13/20] fix: reject arguments of binary packets that are only
 partly read

---
 socket-io-protocol/src/socket/args/deserialize_attachments.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 280201a..443aa8a 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -32,7 +32,9 @@ where
 {
     let mut d = JsonDeserializer::from_str(arg);
     let deserializer = BinaryDeserializer { d: &mut d, buffers };
-    T::deserialize(deserializer)
+    let value = T::deserialize(deserializer)?;
+    d.end()?; // The whole argument must have been read
+    Ok(value)
 }
 
 enum AccessType {
-- 
2.43.0


From a9fc6593c56ead6971b5e6755fba7bbc501b69e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 14/20] fix: read the bytes of an attachment as optional or
 wrapped numbers

---
 .../socket/args/deserialize_attachments.rs    | 57 ++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 443aa8a..f945114 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -118,6 +118,14 @@ struct FirstKeyDeserializer<'a, E> {
     error: PhantomData<E>,
 }
 
+/// A byte of an attachment, which is read in the same way as `serde_json` reads a number.
+struct Byte(u8);
+
+struct ByteDeserializer<E> {
+    byte: u8,
+    error: PhantomData<E>,
+}
+
 macro_rules! deserialize_forward {
     ($($fn:ident ( $( $arg:ident : $ty:ty),* ) , )*) => {
         $(
@@ -324,7 +332,7 @@ where
             match self.access_type {
                 AccessType::Bytes => self.visitor.visit_borrowed_bytes(&*buffer),
                 AccessType::Seq | AccessType::Neither => {
-                    let mut seq = SeqDeserializer::new(buffer.iter().copied());
+                    let mut seq = SeqDeserializer::new(buffer.iter().copied().map(Byte));
                     let value = self.visitor.visit_seq(&mut seq)?;
                     seq.end()?; // The whole attachment must have been used
                     Ok(value)
@@ -555,6 +563,53 @@ where
     }
 }
 
+impl<'de, E> IntoDeserializer<'de, E> for Byte
+where
+    E: DeError,
+{
+    type Deserializer = ByteDeserializer<E>;
+
+    fn into_deserializer(self) -> Self::Deserializer {
+        ByteDeserializer {
+            byte: self.0,
+            error: PhantomData,
+        }
+    }
+}
+
+impl<'de, E> Deserializer<'de> for ByteDeserializer<E>
+where
+    E: DeError,
+{
+    type Error = E;
+
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_u8(self.byte)
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(self, _: &'static str, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit
+        unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
+    }
+}
+
 impl<'de, V> DeserializeSeed<'de> for TupleSeed<V>
 where
     V: Visitor<'de>,
-- 
2.43.0


From 6df620f39d5c1592e47369158f8668aa71063fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 15/20] fix: do not hold the callbacks lock while a callback
 runs

---
 socket-io-client/src/receiver.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/socket-io-client/src/receiver.rs b/socket-io-client/src/receiver.rs
index e584da5..677fe5e 100644
--- a/socket-io-client/src/receiver.rs
+++ b/socket-io-client/src/receiver.rs
@@ -142,17 +142,19 @@ impl Receiver {
                 let event: Cow<'_, str> = event.deserialize()?;
                 let ack = id.map(|id| AckBuilder::new(self.sender.clone(), namespace, id));
                 // TODO: Use id to create ack callback
-                if let Some(mut cb) = self.callbacks.lock().unwrap().get_event(namespace, &*event) {
+                // The callbacks must not stay locked while one runs.
+                let cb = self.callbacks.lock().unwrap().get_event(namespace, &*event);
+                if let Some(mut cb) = cb {
                     cb.call(&args, ack);
                 }
             }
             Data::Ack { id, args } => {
-                if let Some(cb) = self
+                let cb = self
                     .callbacks
                     .lock()
                     .unwrap()
-                    .get_and_clear_ack(namespace, id)
-                {
+                    .get_and_clear_ack(namespace, id);
+                if let Some(cb) = cb {
                     cb.call(&args);
                 } else {
                     return Err(Error::UnexpectedAck(packet.clone()));
-- 
2.43.0


From 898b6d21e3856873db5452fb6888a5184b30243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 16/20] fix: report the error when the connection ends before
 the open packet

---
 socket-io-client/src/connection.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 769c42b..2b3b6b8 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -3,7 +3,11 @@ use std::{
     time::Duration,
 };
 
-use async_tungstenite::{async_tls, tungstenite::Message as WsMessage, WebSocketStream};
+use async_tungstenite::{
+    async_tls,
+    tungstenite::{Error as WsError, Message as WsMessage},
+    WebSocketStream,
+};
 use futures::{
     channel::{mpsc, oneshot},
     future::{FutureExt, RemoteHandle},
@@ -70,9 +74,17 @@ impl Connection {
         .await?;
 
         let open = select! {
-            open = open_rx.fuse() => Ok(open.unwrap()),
+            open = open_rx.fuse() => Ok(open),
             _ = timeout_fut => Err(Error::Timeout("engine.io protocol Open message")),
         }?;
+        let open = match open {
+            Ok(open) => open,
+            // The task ended without an Open message, its result says why.
+            Err(_) => {
+                handle.await?;
+                return Err(WsError::ConnectionClosed.into());
+            }
+        };
         log::trace!("Received open: {:?}", open);
 
         Ok(Connection {
-- 
2.43.0


From ee7287447b2ca9f8fa41c848971b1deffbab34f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:19 +0000
Subject: [PATCH 17/20] fix: send the queued packets before closing

---
 socket-io-client/src/connection.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 2b3b6b8..5003a48 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -169,6 +169,16 @@ where
                     }
                 }
                 _ = closed => {
+                    // Send what was queued before closing.
+                    while let Some(Some(msgs)) = send_rx.next().now_or_never() {
+                        for msg in msgs.into_iter() {
+                            log::trace!("Sending websocket packet: {:?}", msg);
+                            match sink.send(msg).await {
+                                Ok(()) => (),
+                                Err(e) => return Err(e.into()),
+                            }
+                        }
+                    }
                     break;
                 }
             }
-- 
2.43.0


From f8de83f874ea561cfbe1663f9aa581fd71509321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 18/20] fix: stop sending once the server sent its close frame

---
 socket-io-client/src/connection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 5003a48..f085874 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -151,6 +151,11 @@ where
                     };
                     next = stream.next().fuse();
                     match msg {
+                        // The server is closing, so nothing more may be sent.
+                        Ok(WsMessage::Close(frame)) => {
+                            log::debug!("Closed with close frame {:?}", frame);
+                            break;
+                        }
                         Ok(msg) => receiver.process_websocket_packet(msg)?,
                         Err(e) => return Err(e.into()),
                     }
-- 
2.43.0


From 486d71ba7469aa6f6b87adc02c0493edeb3fd688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 19/20] fix: pass IPv6 hosts to the connector without brackets

---
 socket-io-client/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/socket-io-client/src/lib.rs b/socket-io-client/src/lib.rs
index 7dd2083..1fe4bc1 100644
--- a/socket-io-client/src/lib.rs
+++ b/socket-io-client/src/lib.rs
@@ -115,12 +115,14 @@ impl Client {
         let url = url.as_ref();
         let url = parse_url(url).map_err(|e| Error::UrlError(url.to_string(), e))?;
 
-        let connection = connect(
-            url.host_str().unwrap().into(),
-            url.port_or_known_default().unwrap(),
-        )
-        .await
-        .map_err(|e| Error::ConnectionError(Box::new(e)))?;
+        // The brackets around an IPv6 address belong to the URL.
+        let host = match url.host().unwrap() {
+            url::Host::Ipv6(addr) => addr.to_string(),
+            host => host.to_string(),
+        };
+        let connection = connect(host, url.port_or_known_default().unwrap())
+            .await
+            .map_err(|e| Error::ConnectionError(Box::new(e)))?;
 
         Client::new(url, connection, spawn).await
     }
-- 
2.43.0


From 0ce924030c297072d59e0336deb1746048716934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 20/20] fix: do not take a byte of an attachment for the index
 of a variant

---
 .../src/socket/args/deserialize_attachments.rs      | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index f945114..1e52571 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -604,9 +604,20 @@ where
         visitor.visit_newtype_struct(self)
     }
 
+    // A number is no name, although the visitors of derived types would take it as an index.
+    fn deserialize_identifier<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        Err(E::invalid_type(
+            Unexpected::Unsigned(self.byte.into()),
+            &visitor,
+        ))
+    }
+
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit
-        unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
+        unit_struct seq tuple tuple_struct map struct enum ignored_any
     }
 }
 
-- 
2.43.0

