From ded936e9a1f824d45ba6f48fc1eeeda663021252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 01/17] fix: Pool::get rejects the index equal to the pool
 length

---
 src/basic/constpool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 9861e95..3dcfb1f 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -349,7 +349,7 @@ impl Pool {
     /// If the index is 0 or greater than the size of the pool, an error is returned.
     pub fn get(&self, index: u16) -> Result<&Item> {
         // bounds checking
-        if index != 0 && index <= self.len() {
+        if index != 0 && index < self.len() {
             if let Some(ref item) = self.by_index[index as usize - 1] {
                 return Ok(item);
             }
-- 
2.43.0


From ef3d48eccc93f146e23cf908e5d04bd7e981afe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 02/17] fix: Pool::default is an empty pool of encoded length 1

---
 src/basic/constpool.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 3dcfb1f..331a528 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -309,13 +309,18 @@ pub enum ReferenceKind {
 /// A `Vec` and a `HashMap` is used internally to have fast lookups by index and value.
 /// To connect both, `Rc`s are used.
 /// As a result, we will have a little overhead, but this should be negligible.
-#[derive(Default)]
 pub struct Pool {
     length: u16,
     by_index: Vec<Option<Rc<Item>>>,
     by_entry: HashMap<Rc<Item>, u16>,
 }
 
+impl Default for Pool {
+    fn default() -> Self {
+        Pool::new()
+    }
+}
+
 impl Pool {
     pub fn new() -> Self {
         Pool {
-- 
2.43.0


From 9b9c7cbedc79a898e69f3d27267aff75c9461428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 03/17] fix: pushing an item which is already in a full pool
 returns its index

---
 src/basic/constpool.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 331a528..3fbc09e 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -397,6 +397,11 @@ impl Pool {
 
     /// Pushes an item on the pool.
     pub fn push(&mut self, item: Item) -> Result<u16> {
+        // an item which is already in the pool needs no space
+        if let Some(&index) = self.by_entry.get(&item) {
+            return Ok(index);
+        }
+
         if self.len() == u16::max_value() {
             return Err(Error::CPTooLarge);
         }
-- 
2.43.0


From 6180629fe5d2998ed53f08c693444b385d6e4b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 04/17] fix: pushing a long or double with one free index left
 returns CPTooLarge

---
 src/basic/constpool.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 3fbc09e..89f2a57 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -402,11 +402,12 @@ impl Pool {
             return Ok(index);
         }
 
-        if self.len() == u16::max_value() {
+        let double = item.is_double();
+        let width = if double { 2 } else { 1 };
+        if u16::max_value() - self.len() < width {
             return Err(Error::CPTooLarge);
         }
 
-        let double = item.is_double();
         let length = &mut self.length;
 
         let rc_item = Rc::new(item);
-- 
2.43.0


From ca17e788ebd225955281fab904012f944ea9210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 05/17] fix: PoolIter yields the index of the item and can be
 polled after its end

---
 src/basic/constpool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 89f2a57..b581860 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -459,10 +459,10 @@ impl<'a> Iterator for PoolIter<'a> {
     type Item = (u16, &'a Item);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.index += 1;
         if let Some(rc_item) = self.iter.next() {
+            self.index += 1;
             if let Some(ref item) = *rc_item {
-                Some((self.index + 1, item))
+                Some((self.index, item))
             } else {
                 self.next()
             }
-- 
2.43.0


From 57bb50788568ca26406903e1b5887035c1905373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 06/17] fix: equal constants of a class file keep their own
 indices

---
 src/basic/constpool.rs  | 35 ++++++++++++++++-------------------
 src/basic/parser/mod.rs |  2 +-
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index b581860..6e1d730 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -402,33 +402,30 @@ impl Pool {
             return Ok(index);
         }
 
+        self.append(item)
+    }
+
+    /// Adds an item at the end of the pool, even if an equal one is already in it.
+    /// Class files may contain equal entries, which are referenced by their own index.
+    pub(crate) fn append(&mut self, item: Item) -> Result<u16> {
         let double = item.is_double();
         let width = if double { 2 } else { 1 };
         if u16::max_value() - self.len() < width {
             return Err(Error::CPTooLarge);
         }
 
-        let length = &mut self.length;
-
+        let index = self.length;
         let rc_item = Rc::new(item);
-        let rc_item1 = Rc::clone(&rc_item);
-
-        let by_index = &mut self.by_index;
-
-        // check if in pool, if not insert it
-        Ok(*self.by_entry.entry(rc_item).or_insert_with(move || {
-            by_index.push(Some(Rc::clone(&rc_item1)));
+        self.by_index.push(Some(Rc::clone(&rc_item)));
+        if double {
+            // long and double take an additional space
+            self.by_index.push(None);
+        }
+        self.length += width;
 
-            let prev_length = *length;
-            if double {
-                // long and double take an additional space
-                by_index.push(None);
-                *length += 2;
-            } else {
-                *length += 1;
-            }
-            prev_length
-        }))
+        // lookups by value find the first of equal entries
+        self.by_entry.entry(rc_item).or_insert(index);
+        Ok(index)
     }
 
     pub fn iter(&self) -> PoolIter {
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index f620734..28ebc50 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -156,7 +156,7 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
             _ => return Err(Error::InvalidCPItem(index)),
         };
 
-        pool.push(item)?;
+        pool.append(item)?;
         index += 1;
     }
 
-- 
2.43.0


From 6a4eb11a90eeafa0fc4fdf81f8ccec96e369244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 07/17] fix: longs and doubles take two indices when reading
 the constant pool

---
 src/basic/parser/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index 28ebc50..5d7d693 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -73,8 +73,8 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
     let size = decoder.read_u16()?;
     let mut pool = Pool::new();
 
-    let mut index = 1;
-    while index < size {
+    while pool.len() < size {
+        let index = pool.len();
         let tag = decoder.read_u8()?;
 
         // match a tag and read the additional information
@@ -157,7 +157,6 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
         };
 
         pool.append(item)?;
-        index += 1;
     }
 
     Ok(pool)
-- 
2.43.0


From 534bfa9d53aedaa7b0d4898d4f656c195f69cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 08/17] fix: the EnclosingMethod attribute is recognised by its
 name

---
 src/basic/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index 5d7d693..ea1aa1f 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -227,7 +227,7 @@ fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<A
                 Attribute::ConstantValue(index)
             }
             "Deprecated" => Attribute::Deprecated,
-            "EnclosingMethods" => parse_enclosing_method(&mut attr_decoder)?,
+            "EnclosingMethod" => parse_enclosing_method(&mut attr_decoder)?,
             "Exceptions" => parse_exceptions(&mut attr_decoder)?,
             "InnerClasses" => parse_inner_classes(&mut attr_decoder)?,
             "LineNumberTable" => parse_line_number_table(&mut attr_decoder)?,
-- 
2.43.0


From aadeccbd25ea8150125eb8f72c69db92c42265c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 09/17] fix: wide astore has op code 0x3A

---
 src/basic/parser/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 8227f42..3cd6517 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -329,7 +329,7 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             0x37 => LStore(decoder.read_u16()?),
             0x38 => FStore(decoder.read_u16()?),
             0x39 => DStore(decoder.read_u16()?),
-            0x40 => AStore(decoder.read_u16()?),
+            0x3A => AStore(decoder.read_u16()?),
             0x84 => {
                 let index = decoder.read_u16()?;
                 let value = decoder.read_i16()?;
-- 
2.43.0


From 197894c3823e4b51dfdbb7e91467ff8ea1ebe005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 10/17] fix: the number of method parameters is a single byte

---
 src/basic/parser/method.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/method.rs b/src/basic/parser/method.rs
index 01ca8a6..22333a7 100644
--- a/src/basic/parser/method.rs
+++ b/src/basic/parser/method.rs
@@ -155,7 +155,7 @@ fn parse_verification_type(decoder: &mut Decoder) -> Result<VerificationType> {
 
 /// Parses the `MethodParameters` attribute.
 pub fn parse_method_parameters(decoder: &mut Decoder) -> Result<Attribute> {
-    let count = decoder.read_u16()?;
+    let count = decoder.read_u8()?;
     let mut params = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let name = decoder.read_u16()?;
-- 
2.43.0


From 9365491466552185a64d2441fe586a7445285413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 11/17] fix: bootstrap method arguments are allocated by their
 own count

---
 src/basic/parser/class.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/basic/parser/class.rs b/src/basic/parser/class.rs
index a9f39e0..1d34b40 100644
--- a/src/basic/parser/class.rs
+++ b/src/basic/parser/class.rs
@@ -7,9 +7,9 @@ pub fn parse_bootstrap_methods(decoder: &mut Decoder) -> Result<Attribute> {
     let mut bootstrap_methods = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let method_ref = decoder.read_u16()?;
-        let mut arguments = Vec::with_capacity(count as usize);
-        let count = decoder.read_u16()?;
-        for _ in 0..count {
+        let argument_count = decoder.read_u16()?;
+        let mut arguments = Vec::with_capacity(argument_count as usize);
+        for _ in 0..argument_count {
             arguments.push(decoder.read_u16()?);
         }
         bootstrap_methods.push(BootstrapMethod {
-- 
2.43.0


From e503d9eb3240b62916fdde67375c9da7d44e20a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 12/17] fix: the length of a local variable target table is two
 bytes

---
 src/basic/parser/annotation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index b4bfced..d7717dd 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -155,7 +155,7 @@ fn parse_target_type(decoder: &mut Decoder) -> Result<TargetType> {
 
 /// Parses the local variables of a local variable target type
 fn parse_local_variable(decoder: &mut Decoder) -> Result<Vec<LocalVariableTarget>> {
-    let length = decoder.read_u8()?;
+    let length = decoder.read_u16()?;
     let mut table = Vec::with_capacity(length as usize);
 
     for _ in 0..length {
-- 
2.43.0


From 2e561356636d4d26c8229e76db66dba82eb5f6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 13/17] fix: the module and mandated flags are 0x8000

---
 src/basic/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/tree.rs b/src/basic/tree.rs
index ff92693..2c7e173 100644
--- a/src/basic/tree.rs
+++ b/src/basic/tree.rs
@@ -110,8 +110,8 @@ bitflags! {
         const SYNTHETIC    = 0b0001_0000_0000_0000;
         const ANNOTATION   = 0b0010_0000_0000_0000;
         const ENUM         = 0b0100_0000_0000_0000;
-        const MODULE       = 0b1000_0000_0000_0001;
-        const MANDATED     = 0b1000_0000_0000_0001;
+        const MODULE       = 0b1000_0000_0000_0000;
+        const MANDATED     = 0b1000_0000_0000_0000;
     }
 }
 
-- 
2.43.0


From aa9c747fd0b1a605051a15a1fe42555a42885ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 14/17] fix: the bounds of a tableswitch can not overflow or
 allocate more than the code holds

---
 src/basic/parser/code.rs   | 11 +++++++++--
 src/basic/parser/decode.rs |  8 +++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 3cd6517..69c7ece 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -248,8 +248,15 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             let low = decoder.read_i32()?;
             let high = decoder.read_i32()?;
 
-            let mut offsets = Vec::with_capacity((high - low + 1) as usize);
-            for _ in low..(high + 1) {
+            // the amount of offsets does not have to fit in an i32
+            let count = i64::from(high) - i64::from(low) + 1;
+            if count < 1 {
+                return Err(Error::InvalidInstruction { op_code: 0xAA, at });
+            }
+
+            // every offset takes 4 bytes, do not allocate more than there can be
+            let mut offsets = Vec::with_capacity(decoder.capacity(count as u64, 4));
+            for _ in 0..count {
                 offsets.push(decoder.read_i32()?);
             }
 
diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 8029079..2e338a1 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -3,7 +3,7 @@
 
 use result::*;
 use byteorder::{BigEndian, ByteOrder};
-use std::char;
+use std::{char, cmp};
 
 pub struct Decoder<'a> {
     bytes: &'a [u8],
@@ -55,6 +55,12 @@ impl<'a> Decoder<'a> {
         *self.cursor
     }
 
+    /// Returns how many of `count` elements, of at least `size` bytes each, can follow at most.
+    pub fn capacity(&self, count: u64, size: usize) -> usize {
+        let max = (self.limit - *self.cursor) / size;
+        cmp::min(count, max as u64) as usize
+    }
+
     /// Reads a specific amount of bytes.
     /// If not enough bytes are available, an EOF error is returned.
     pub fn read_bytes(&mut self, count: usize) -> Result<&'a [u8]> {
-- 
2.43.0


From 46ebde04cff890c9110a826e7e9a193f796e9a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 15/17] fix: counts of nested attributes and annotations do not
 allocate more than the input holds

---
 src/basic/parser/annotation.rs | 6 ++++--
 src/basic/parser/mod.rs        | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index d7717dd..82fa95e 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -34,7 +34,8 @@ pub fn parse_type_annotations(decoder: &mut Decoder) -> Result<Vec<TypeAnnotatio
 fn parse_annotation(decoder: &mut Decoder) -> Result<Annotation> {
     let type_index = decoder.read_u16()?;
     let count = decoder.read_u16()?;
-    let mut element_value_pairs = Vec::with_capacity(count as usize);
+    // a pair takes at least 5 bytes
+    let mut element_value_pairs = Vec::with_capacity(decoder.capacity(u64::from(count), 5));
 
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
@@ -75,7 +76,8 @@ pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
         )?))),
         b'[' => {
             let count = decoder.read_u16()?;
-            let mut element_values = Vec::with_capacity(count as usize);
+            // a value takes at least 3 bytes
+            let mut element_values = Vec::with_capacity(decoder.capacity(u64::from(count), 3));
 
             for _ in 0..count {
                 element_values.push(parse_element_value(decoder)?);
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index ea1aa1f..e7c936d 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -207,7 +207,8 @@ fn parse_methods(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Meth
 /// Parses all attributes
 fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Attribute>> {
     let count = decoder.read_u16()?;
-    let mut attributes = Vec::with_capacity(count as usize);
+    // an attribute takes at least 6 bytes
+    let mut attributes = Vec::with_capacity(decoder.capacity(u64::from(count), 6));
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
         let name = constant_pool.get_utf8(name_index)?;
-- 
2.43.0


From e8d34c4c98020e845e4a7d0ed022e95aada53276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 16/17] fix: strings with malformed continuation bytes or
 surrogate pairs are rejected

---
 src/basic/parser/decode.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 2e338a1..d4b0567 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -129,19 +129,24 @@ impl<'a> Decoder<'a> {
             } else if r1 >= 0xC0 && r1 < 0xE0 && i >= 2 {
                 // 2 bytes
                 i -= 2;
-                let r2 = u32::from(self.read_u8()?);
+                let r2 = self.read_continuation()?;
                 (r1 & 0x1F) << 6 | (r2 & 0x3F)
             } else if r1 >= 0xE0 && r1 < 0xF0 && i >= 3 {
                 i -= 3;
-                let r2 = u32::from(self.read_u8()?);
-                let r3 = u32::from(self.read_u8()?);
+                let r2 = self.read_continuation()?;
+                let r3 = self.read_continuation()?;
                 if r1 == 0xED && r2 >= 0xA0 && r2 <= 0xAF {
                     if i >= 3 {
                         i -= 3;
 
-                        self.read_u8()?;
-                        let r5 = u32::from(self.read_u8()?);
-                        let r6 = u32::from(self.read_u8()?);
+                        // a high surrogate must be followed by a low surrogate
+                        let r4 = self.read_u8()?;
+                        let r5 = self.read_continuation()?;
+                        let r6 = self.read_continuation()?;
+                        if r4 != 0xED || r5 < 0xB0 {
+                            return Err(Error::InvalidUTF8);
+                        }
+
                         // r1 and r4 can be ignored
                         0x1_0000 + ((r2 & 0x0F) << 16) + ((r3 & 0x3F) << 10) + ((r5 & 0x0F) << 6)
                             + (r6 & 0x3F)
@@ -164,6 +169,16 @@ impl<'a> Decoder<'a> {
         Ok(out)
     }
 
+    /// Reads a byte of an UTF-8 sequence, which is not the first of it
+    fn read_continuation(&mut self) -> Result<u32> {
+        let byte = self.read_u8()?;
+        if byte & 0xC0 == 0x80 {
+            Ok(u32::from(byte))
+        } else {
+            Err(Error::InvalidUTF8)
+        }
+    }
+
     /// Checks for bounds
     fn check(&self, location: usize) -> Result<()> {
         if location <= self.limit {
-- 
2.43.0


From d0ef7c00df46d085813d74617ebf9ef69bc85d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 17/17] fix: deeply nested attributes and annotations are
 rejected instead of exhausting the stack

---
 src/basic/parser/annotation.rs |  5 +++--
 src/basic/parser/decode.rs     | 17 +++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index 82fa95e..7b9b22d 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -72,15 +72,16 @@ pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
             })
         }
         b'@' => Ok(ElementValue::Annotation(Box::new(parse_annotation(
-            decoder,
+            &mut decoder.nest()?,
         )?))),
         b'[' => {
             let count = decoder.read_u16()?;
             // a value takes at least 3 bytes
             let mut element_values = Vec::with_capacity(decoder.capacity(u64::from(count), 3));
 
+            let mut decoder = decoder.nest()?;
             for _ in 0..count {
-                element_values.push(parse_element_value(decoder)?);
+                element_values.push(parse_element_value(&mut decoder)?);
             }
 
             Ok(ElementValue::Array(element_values))
diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index d4b0567..63e0ce0 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -5,10 +5,15 @@ use result::*;
 use byteorder::{BigEndian, ByteOrder};
 use std::{char, cmp};
 
+/// How deep attributes and annotations can be nested.
+/// Without a maximum, a file could exhaust the stack.
+const MAX_DEPTH: usize = 64;
+
 pub struct Decoder<'a> {
     bytes: &'a [u8],
     cursor: &'a mut usize,
     limit: usize,
+    depth: usize,
 }
 
 impl<'a> Decoder<'a> {
@@ -19,6 +24,7 @@ impl<'a> Decoder<'a> {
             bytes,
             cursor,
             limit: bytes.len(),
+            depth: 0,
         }
     }
 
@@ -26,13 +32,24 @@ impl<'a> Decoder<'a> {
     pub fn limit(&mut self, to: usize) -> Result<Decoder> {
         let end = *self.cursor + to;
         self.check(end)?;
+        if self.depth == MAX_DEPTH {
+            return Err(Error::LimitExceeded);
+        }
+
         Ok(Decoder {
             bytes: self.bytes,
             cursor: self.cursor,
             limit: end,
+            depth: self.depth + 1,
         })
     }
 
+    /// Limits the decoder to the same bytes, for an element which can contain itself
+    pub fn nest(&mut self) -> Result<Decoder> {
+        let remaining = self.limit - *self.cursor;
+        self.limit(remaining)
+    }
+
     /// Removes the limit and returns an error if the limit was exceeded, or not reached
     pub fn remove_limit(self) -> Result<()> {
         if self.limit == *self.cursor {
-- 
2.43.0

