From ea19ffc33cb7aff379548fd39c51d4bda998df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 01/10] fix: JSON byte-array parsing wrote through a pointer
 invalidated by later re-borrows (UB in release builds)

---
 ser-write-json/src/de.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 6fb1043..0ac5ae4 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -833,19 +833,6 @@ impl<'de, P> Deserializer<'de, P> {
         /* save index */
         let start = self.index;
         let mut index = start;
-        #[allow(unused_variables)]
-        #[allow(clippy::let_unit_value)]
-        let input = {
-            #[cfg(debug_assertions)]
-            #[allow(clippy::unused_unit)]
-            {
-                ()
-            }
-            #[cfg(not(debug_assertions))]
-            {
-                self.input.as_mut_ptr()
-            }
-        };
         loop {
             let byte = self.parse_unsigned()?;
             #[cfg(debug_assertions)]
@@ -856,7 +843,9 @@ impl<'de, P> Deserializer<'de, P> {
             {
                 // SAFETY: depends on parse_unsigned to validate if there is enough room in input
                 // any number in ASCII is >= byte
-                unsafe { input.add(index).write(byte); }
+                // NOTE: write through self.input every time, a pointer obtained in advance
+                // would be invalidated each time self.input is mutably re-borrowed
+                unsafe { *self.input.get_unchecked_mut(index) = byte; }
             }
             index += 1;
             match self.eat_whitespace()? {
-- 
2.43.0


From 05ac9bcaab1312947eb026d993317236f6d536b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 02/10] fix: MsgPack eat_message length arithmetic overflowed
 where usize is 32-bit

---
 ser-write-msgpack/src/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index f906d6b..b9cb92f 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -373,7 +373,8 @@ impl<'de> Deserializer<'de> {
             BIN_32|STR_32 => Single(self.fetch_u32()?.try_into()?),
             EXT_8 => Single(1usize + usize::from(self.fetch_u8()?)),
             EXT_16 => Single(1usize + usize::from(self.fetch_u16()?)),
-            EXT_32 => Single(1usize + usize::try_from(self.fetch_u32()?)?),
+            EXT_32 => Single(usize::try_from(self.fetch_u32()?)?.checked_add(1)
+                             .ok_or(Error::UnexpectedEof)?),
             FLOAT_32 => Single(4),
             FLOAT_64 => Single(8),
             UINT_8 => Single(1),
@@ -396,11 +397,10 @@ impl<'de> Deserializer<'de> {
         };
         match mtyp {
             Single(len) => {
-                let index = self.index + len;
-                if index > self.input.len() {
+                if len > self.remaining_len() {
                     return Err(Error::UnexpectedEof)
                 }
-                self.index = index;
+                self.eat_some(len);
             }
             Array(len) => self.eat_seq_items(len)?,
             Map(len) => self.eat_map_items(len)?
-- 
2.43.0


From ece2800c192933a2194b1b0a96e89138d13cb658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 03/10] fix: MsgPack eat_message exhausted the stack on deeply
 nested input

---
 ser-write-msgpack/src/de.rs | 47 +++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index b9cb92f..4220b46 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -357,6 +357,26 @@ impl<'de> Deserializer<'de> {
     /// Return `Ok(())` on success or `Err(Error::UnexpectedEof)` if there was not enough data
     /// to fully decode a MessagePack item.
     pub fn eat_message(&mut self) -> Result<()> {
+        use MsgType::*;
+        /* number of items left to consume, saturated value exceeds any possible input size */
+        let mut pending: u64 = 1;
+        while pending != 0 {
+            pending -= 1;
+            match self.fetch_msg_type()? {
+                Single(len) => {
+                    if len > self.remaining_len() {
+                        return Err(Error::UnexpectedEof)
+                    }
+                    self.eat_some(len);
+                }
+                Array(len) => pending = pending.saturating_add(len as u64),
+                Map(len) => pending = pending.saturating_add((len as u64).saturating_mul(2))
+            }
+        }
+        Ok(())
+    }
+
+    fn fetch_msg_type(&mut self) -> Result<MsgType> {
         use MsgType::*;
         let mtyp = match self.fetch()? {
             NIL|
@@ -395,32 +415,7 @@ impl<'de> Deserializer<'de> {
             MAP_16 => Map(self.fetch_u16()?.into()),
             MAP_32 => Map(self.fetch_u32()?.try_into()?),
         };
-        match mtyp {
-            Single(len) => {
-                if len > self.remaining_len() {
-                    return Err(Error::UnexpectedEof)
-                }
-                self.eat_some(len);
-            }
-            Array(len) => self.eat_seq_items(len)?,
-            Map(len) => self.eat_map_items(len)?
-        }
-        Ok(())
-    }
-
-    fn eat_seq_items(&mut self, len: usize) -> Result<()> {
-        for _ in 0..len {
-            self.eat_message()?;
-        }
-        Ok(())
-    }
-
-    fn eat_map_items(&mut self, len: usize) -> Result<()> {
-        for _ in 0..len {
-            self.eat_message()?;
-            self.eat_message()?;
-        }
-        Ok(())
+        Ok(mtyp)
     }
 
 }
-- 
2.43.0


From 4a3367a21d0900fc4456facf60d6b878d02ce050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 04/10] fix: JSON map keys of newtype struct types could be
 serialized but not deserialized

---
 ser-write-json/src/de.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 0ac5ae4..047b510 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -1432,9 +1432,19 @@ impl<'de, 'a, P> de::Deserializer<'de> for MapKey<'a, 'de, P>
         visitor.visit_enum(UnitVariantAccess { de: self.de })
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value>
+        where V: Visitor<'de>
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     forward_to_deserialize_any! {
         i128 u128 f32 f64 string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
+        bytes byte_buf option unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From b3d462b1f8de0c537fc6f3f16d273d9bd79c4c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 05/10] fix: JSON deserialize_any rejected integer literals
 exceeding 64-bit range

---
 ser-write-json/src/de.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 047b510..44c4462 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -604,10 +604,18 @@ impl<'de, P> Deserializer<'de, P> {
             AnyNumber::Float(AnyFloat::from_str(s)?)
         }
         else if is_negative {
-            AnyNumber::NegInt(i64::from_str(s)?)
+            match i64::from_str(s) {
+                Ok(n) => AnyNumber::NegInt(n),
+                /* an integer out of range or not a number */
+                Err(..) => AnyNumber::Float(AnyFloat::from_str(s)?)
+            }
         }
         else {
-            AnyNumber::PosInt(u64::from_str(s)?)
+            match u64::from_str(s) {
+                Ok(n) => AnyNumber::PosInt(n),
+                /* an integer out of range or not a number */
+                Err(..) => AnyNumber::Float(AnyFloat::from_str(s)?)
+            }
         };
         self.eat_some(input.len());
         Ok(num)
-- 
2.43.0


From 9d5ed9cc2a44e17214cff637b9d36f0e62371c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 06/10] fix: JSON strings with escaped UTF-16 surrogate pairs
 were rejected

---
 ser-write-json/src/de.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 44c4462..4ccb6c7 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -750,7 +750,17 @@ impl<'de, P> Deserializer<'de, P> {
                                 // let code = u32::from_str_radix(s, 16)?;
                                 let code = self.input.get(index+1..index+5).ok_or(Error::UnexpectedEof)?
                                            .try_into().unwrap();
-                                let code = parse_uuuu(code).ok_or(Error::InvalidEscapeSequence)?;
+                                let mut code = parse_uuuu(code).ok_or(Error::InvalidEscapeSequence)?;
+                                if let 0xD800..=0xDBFF = code {
+                                    /* \uD800-\uDBFF must be followed by \uDC00-\uDFFF */
+                                    if let Some(&[RS, UU, a, b, c, d]) = self.input.get(index+5..index+11) {
+                                        let low = parse_uuuu([a,b,c,d]).ok_or(Error::InvalidEscapeSequence)?;
+                                        if let 0xDC00..=0xDFFF = low {
+                                            code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+                                            index += 6;
+                                        }
+                                    }
+                                }
                                 let ch = char::from_u32(code).ok_or(Error::InvalidUnicodeCodePoint)?;
                                 dest += ch.encode_utf8(&mut self.input[dest..]).len();
                                 index += 5;
-- 
2.43.0


From 104b421439b3f3cd35009549c7d752d920a275d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 07/10] fix: JSON eat_whitespace panicked with the cursor
 beyond the end of input

---
 ser-write-json/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 4ccb6c7..073a38e 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -423,7 +423,7 @@ impl<'de, P> Deserializer<'de, P> {
     /// are no more unparsed characters remaining in the input slice.
     pub fn eat_whitespace(&mut self) -> Result<u8> {
         let index = self.index;
-        self.input[index..].iter()
+        self.input.get(index..).ok_or(Error::UnexpectedEof)?.iter()
         .position(|&b| !matches!(b, SP|T_|N_|R_))
         .map(|pos| {
             self.index = index + pos;
-- 
2.43.0


From ce1418ad42e55a26f816a4a99a7315206a50725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 08/10] fix: no_std MsgPack collect_str returned Ok when the
 second formatting was shorter than announced

---
 ser-write-msgpack/src/ser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ser-write-msgpack/src/ser.rs b/ser-write-msgpack/src/ser.rs
index 650c822..ecffbbe 100644
--- a/ser-write-msgpack/src/ser.rs
+++ b/ser-write-msgpack/src/ser.rs
@@ -569,7 +569,8 @@ impl<'a, W: SerWrite> ser::Serializer for &'a mut $serializer<W>
         let StringLenCounter(len) = col;
         write_str_len(&mut self.output, len)?;
         let mut col = StringCollector::new(len, &mut self.output);
-        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)
+        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
+        (col.len == 0).then_some(()).ok_or(Error::FormatError)
     }
 }
 
-- 
2.43.0


From 038eedfe4a5dcba718c5aaf1e1e2c911683a8229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 09/10] fix: JSON numeric and boolean map keys accepted raw
 control characters after the opening quote

---
 ser-write-json/src/de.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 073a38e..bd11e07 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -1322,9 +1322,23 @@ struct MapKey<'a, 'de, P> {
 }
 
 impl<'de, 'a, P> MapKey<'a, 'de, P>  {
+    // eat '"', the presence of which is checked in MapAccess, and any leading spaces,
+    // other whitespace characters are not allowed in strings
     #[inline]
-    fn parse_unsigned_numkey<T: NumParseTool>(self) -> Result<T> {
-        self.de.eat_some(1); // eat '"', the presence of which is checked in MapAccess
+    fn eat_opening(&mut self) -> Result<()> {
+        self.de.eat_some(1);
+        while b' ' == self.de.peek()? {
+            self.de.eat_some(1);
+        }
+        match self.de.peek()? {
+            0..=0x1f => Err(Error::StringControlChar),
+            _ => Ok(())
+        }
+    }
+
+    #[inline]
+    fn parse_unsigned_numkey<T: NumParseTool>(mut self) -> Result<T> {
+        self.eat_opening()?;
         let n = self.de.parse_unsigned()?;
         // check if we have a closing '"' immediately following a number
         if b'"' == self.de.peek()? {
@@ -1337,10 +1351,10 @@ impl<'de, 'a, P> MapKey<'a, 'de, P>  {
     }
 
     #[inline]
-    fn parse_signed_numkey<T>(self) -> Result<T>
+    fn parse_signed_numkey<T>(mut self) -> Result<T>
         where T: NumParseTool + CheckedSub + Neg<Output = T>
     {
-        self.de.eat_some(1); // eat '"', the presence of which is checked in MapAccess
+        self.eat_opening()?;
         let n = self.de.parse_signed()?;
         // check if we have a closing '"' immediately following a number
         if b'"' == self.de.peek()? {
@@ -1425,10 +1439,10 @@ impl<'de, 'a, P> de::Deserializer<'de> for MapKey<'a, 'de, P>
         visitor.visit_u64(self.parse_unsigned_numkey()?)
     }
 
-    fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value>
+    fn deserialize_bool<V>(mut self, visitor: V) -> Result<V::Value>
         where V: Visitor<'de>
     {
-        self.de.eat_some(1); // eat '"', the presence of which is checked in MapAccess
+        self.eat_opening()?;
         let b = self.de.deserialize_bool(visitor)?;
         if b'"' == self.de.peek()? {
             self.de.eat_some(1);
-- 
2.43.0


From 04ce3be3a248f7bde9d7bb84024e7105cf26a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 10/10] fix: MsgPack collect_str panicked when a value's
 formatting failed with std or alloc

---
 ser-write-msgpack/src/ser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ser-write-msgpack/src/ser.rs b/ser-write-msgpack/src/ser.rs
index ecffbbe..0ba37ac 100644
--- a/ser-write-msgpack/src/ser.rs
+++ b/ser-write-msgpack/src/ser.rs
@@ -555,7 +555,9 @@ impl<'a, W: SerWrite> ser::Serializer for &'a mut $serializer<W>
     fn collect_str<T>(self, value: &T) -> Result<Self::Ok, W::Error>
         where T: fmt::Display + ?Sized
     {
-        self.serialize_str(&value.to_string())
+        let mut s = String::new();
+        fmt::write(&mut s, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
+        self.serialize_str(&s)
     }
 
     #[cfg(not(any(feature = "std", feature = "alloc")))]
-- 
2.43.0

