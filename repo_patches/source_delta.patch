From 9432162ebdc2b7ded40d44b8d5d7a90309fc303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 01/20] fix: treat varints longer than 10 bytes as malformed
 instead of overflowing the shift

---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 32632c4..cc98f63 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -677,7 +677,8 @@ where
         let mut result = 0u64;
         let mut idx = 0;
         loop {
-            if idx >= data.len() {
+            // A varint that doesn't terminate within 10 bytes (64 bits) is malformed.
+            if idx >= data.len() || idx >= 10 {
                 return None;
             }
 
-- 
2.43.0


From 9b22268b01cd1a7a5adb48cc25b4a6a915f731d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 02/20] fix: truncate out-of-range 32-bit and bool varints
 instead of panicking

---
 src/decode.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index cc98f63..840b0b9 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -178,11 +178,12 @@ impl Value
                 try_read_8_bytes(data).map(|b| Value::Double(f64::from_le_bytes(b)))
             }
             ValueType::Float => try_read_4_bytes(data).map(|b| Value::Float(f32::from_le_bytes(b))),
-            ValueType::Int32 => i32::from_signed_varint(data).map(Value::Int32),
+            ValueType::Int32 => i64::from_signed_varint(data).map(|v| Value::Int32(v as i32)),
             ValueType::Int64 => i64::from_signed_varint(data).map(Value::Int64),
-            ValueType::UInt32 => u32::from_unsigned_varint(data).map(Value::UInt32),
+            ValueType::UInt32 => u64::from_unsigned_varint(data).map(|v| Value::UInt32(v as u32)),
             ValueType::UInt64 => u64::from_unsigned_varint(data).map(Value::UInt64),
-            ValueType::SInt32 => u32::from_unsigned_varint(data).map(|u| {
+            ValueType::SInt32 => u64::from_unsigned_varint(data).map(|u| {
+                let u = u as u32;
                 let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                 let magnitude = (u / 2) as i32 + sign_bit;
                 Value::SInt32(sign * magnitude)
@@ -204,7 +205,7 @@ impl Value
             ValueType::SFixed64 => {
                 try_read_8_bytes(data).map(|b| Value::SFixed64(i64::from_le_bytes(b)))
             }
-            ValueType::Bool => usize::from_unsigned_varint(data).map(|u| Value::Bool(u != 0)),
+            ValueType::Bool => u64::from_unsigned_varint(data).map(|u| Value::Bool(u != 0)),
             ValueType::String => read_string(data).map(Value::String),
             ValueType::Bytes => read_bytes(data).map(Value::Bytes),
             ValueType::Enum(eref) => i64::from_signed_varint(data).map(|v| {
@@ -279,19 +280,20 @@ impl Value
                 read_packed! { Float @ b = try_read_4_bytes(&mut array) => f32::from_le_bytes(b) }
             }
             ValueType::Int32 => {
-                read_packed! { Int32 @ b = i32::from_signed_varint(&mut array) => b }
+                read_packed! { Int32 @ b = i64::from_signed_varint(&mut array) => b as i32 }
             }
             ValueType::Int64 => {
                 read_packed! { Int64 @ b = i64::from_signed_varint(&mut array) => b }
             }
             ValueType::UInt32 => {
-                read_packed! { UInt32 @ b = u32::from_signed_varint(&mut array) => b }
+                read_packed! { UInt32 @ b = u64::from_unsigned_varint(&mut array) => b as u32 }
             }
             ValueType::UInt64 => {
                 read_packed! { UInt64 @ b = u64::from_signed_varint(&mut array) => b }
             }
             ValueType::SInt32 => {
-                read_packed! { SInt32 @ b = u32::from_signed_varint(&mut array) => {
+                read_packed! { SInt32 @ b = u64::from_unsigned_varint(&mut array) => {
+                    let b = b as u32;
                     let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                     let magnitude = (b / 2) as i32 + sign_bit;
                     sign * magnitude
@@ -317,7 +319,7 @@ impl Value
                 read_packed! { SFixed64 @ b = try_read_8_bytes(&mut array) => i64::from_le_bytes(b) }
             }
             ValueType::Bool => {
-                read_packed! { Bool @ b = u8::from_unsigned_varint(&mut array) => b != 0 }
+                read_packed! { Bool @ b = u64::from_unsigned_varint(&mut array) => b != 0 }
             }
             _ => panic!("Non-scalar type was handled as packed"),
         }
-- 
2.43.0


From 654cf2ad2af15231e9fb64412066b1b5cdbb1b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 03/20] fix: decode packed uint64 and sint64 elements above
 i64::MAX instead of panicking

---
 src/decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 840b0b9..44c1364 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -289,7 +289,7 @@ impl Value
                 read_packed! { UInt32 @ b = u64::from_unsigned_varint(&mut array) => b as u32 }
             }
             ValueType::UInt64 => {
-                read_packed! { UInt64 @ b = u64::from_signed_varint(&mut array) => b }
+                read_packed! { UInt64 @ b = u64::from_unsigned_varint(&mut array) => b }
             }
             ValueType::SInt32 => {
                 read_packed! { SInt32 @ b = u64::from_unsigned_varint(&mut array) => {
@@ -300,7 +300,7 @@ impl Value
                 } }
             }
             ValueType::SInt64 => {
-                read_packed! { SInt64 @ b = u64::from_signed_varint(&mut array) => {
+                read_packed! { SInt64 @ b = u64::from_unsigned_varint(&mut array) => {
                     let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
                     let magnitude = (b / 2) as i64 + sign_bit;
                     sign * magnitude
-- 
2.43.0


From 02cd0441ae4627205d6b3a92476f473e94399ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 04/20] fix: decode the zigzag encoding of the minimum sint32
 and sint64 without overflow

---
 src/decode.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 44c1364..69df1f2 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -185,13 +185,13 @@ impl Value
             ValueType::SInt32 => u64::from_unsigned_varint(data).map(|u| {
                 let u = u as u32;
                 let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                let magnitude = (u / 2) as i32 + sign_bit;
-                Value::SInt32(sign * magnitude)
+                let magnitude = (u / 2) as i32;
+                Value::SInt32(sign * magnitude - sign_bit)
             }),
             ValueType::SInt64 => u64::from_unsigned_varint(data).map(|u| {
                 let (sign, sign_bit) = if u % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                let magnitude = (u / 2) as i64 + sign_bit;
-                Value::SInt64(sign * magnitude)
+                let magnitude = (u / 2) as i64;
+                Value::SInt64(sign * magnitude - sign_bit)
             }),
             ValueType::Fixed32 => {
                 try_read_4_bytes(data).map(|b| Value::Fixed32(u32::from_le_bytes(b)))
@@ -295,15 +295,15 @@ impl Value
                 read_packed! { SInt32 @ b = u64::from_unsigned_varint(&mut array) => {
                     let b = b as u32;
                     let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                    let magnitude = (b / 2) as i32 + sign_bit;
-                    sign * magnitude
+                    let magnitude = (b / 2) as i32;
+                    sign * magnitude - sign_bit
                 } }
             }
             ValueType::SInt64 => {
                 read_packed! { SInt64 @ b = u64::from_unsigned_varint(&mut array) => {
                     let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                    let magnitude = (b / 2) as i64 + sign_bit;
-                    sign * magnitude
+                    let magnitude = (b / 2) as i64;
+                    sign * magnitude - sign_bit
                 } }
             }
             ValueType::Fixed32 => {
-- 
2.43.0


From 1ac2fc7da696792fe05789377f1c35277dbce323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 05/20] fix: zigzag encode sint32 and sint64 values of large
 magnitude without overflow

---
 src/decode.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 69df1f2..8f2de2c 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -368,11 +368,13 @@ impl Value
             Value::UInt32(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
             Value::UInt64(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
             Value::SInt32(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
+                let v = i64::from(*v);
+                let (v, sign_bit) = if v < 0 { (-v, 1) } else { (v, 0) };
                 (v * 2 - sign_bit).into_unsigned_varint()
             }
             Value::SInt64(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
+                let v = i128::from(*v);
+                let (v, sign_bit) = if v < 0 { (-v, 1) } else { (v, 0) };
                 (v * 2 - sign_bit).into_unsigned_varint()
             }
             Value::Fixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
@@ -469,13 +471,15 @@ impl PackedArray
             }
             PackedArray::SInt32(v) => {
                 write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
+                    let v = i64::from(*v);
+                    let (v, sign_bit) = if v < 0 { (-v, 1) } else { (v, 0) };
                     (v * 2 - sign_bit).into_unsigned_varint()
                 } }
             }
             PackedArray::SInt64(v) => {
                 write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
+                    let v = i128::from(*v);
+                    let (v, sign_bit) = if v < 0 { (-v, 1) } else { (v, 0) };
                     (v * 2 - sign_bit).into_unsigned_varint()
                 } }
             }
-- 
2.43.0


From bd14473bbc52c5a7b3bee27a0a90ff8d22307516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 06/20] fix: consume the bytes of an incomplete unknown value
 instead of decoding them again

---
 src/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 8f2de2c..588a48d 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -355,7 +355,7 @@ impl Value
 
         value
             .map(Value::Unknown)
-            .unwrap_or_else(|| Value::Incomplete(vt, Bytes::copy_from_slice(data)))
+            .unwrap_or_else(|| return_incomplete(data, vt, original))
     }
 
     fn encode(&self, ctx: &Context) -> Option<(u8, BytesMut)>
-- 
2.43.0


From 181386097ca9115ec9e7bfe33fd000f54a7b5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 07/20] fix: limit an incomplete packed array to its own bytes
 instead of decoding the rest twice

---
 src/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decode.rs b/src/decode.rs
index 588a48d..59dbfa2 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -251,6 +251,9 @@ impl Value
         let mut array = &data[..length];
         *data = &data[length..];
 
+        // If the array turns out to be malformed, only the bytes of this field are incomplete.
+        let original = &original[..original.len() - data.len()];
+
         // Reading the packed arrays follows very similar format for each type.  The variances are
         // in how to read the data from the stream and what to do with the data to get the final
         // value.
-- 
2.43.0


From 69e40690775a31e4dd18f828d3f41069ebc108b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 08/20] fix: keep the options of services and rpcs when
 building the context

---
 src/context/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 80d8563..5c9d18a 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -664,7 +664,7 @@ impl ServiceBuilder
             full_name: self_data.full_name.clone(),
             rpcs,
             rpcs_by_name,
-            options: vec![],
+            options: self.options,
         })
     }
 }
@@ -677,7 +677,7 @@ impl RpcBuilder
             name: self.name,
             input: self.input.build(self_data, cache)?,
             output: self.output.build(self_data, cache)?,
-            options: vec![],
+            options: self.options,
         })
     }
 }
-- 
2.43.0


From 63f63fb180251e9e7568cfff1fa65e4b50339bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 09/20] fix: report a service used as a field type as an error
 instead of panicking

---
 src/context/builder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 5c9d18a..04e7a1b 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -499,14 +499,21 @@ impl FieldTypeBuilder
                 let t = cache
                     .resolve_type(&s, &self_data.full_name)
                     .ok_or_else(|| ParseError::TypeNotFound {
-                        name: s,
+                        name: s.clone(),
                         context: self_data.full_name.to_string(),
                     })?;
 
                 match t.item_type {
                     ItemType::Message => ValueType::Message(MessageRef(InternalRef(t.final_idx))),
                     ItemType::Enum => ValueType::Enum(EnumRef(InternalRef(t.final_idx))),
-                    _ => unreachable!("Service as field type"),
+                    ItemType::Service => {
+                        return Err(ParseError::InvalidTypeKind {
+                            type_name: s,
+                            context: "field type",
+                            expected: ItemType::Message,
+                            actual: t.item_type,
+                        })
+                    }
                 }
             }
         })
-- 
2.43.0


From adc520ada6a9dd2ae36476aa5da3aac56d4cbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 10/20] fix: accept empty statements at the top level instead
 of panicking

---
 src/context/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 2291819..90cc0a5 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -52,6 +52,7 @@ impl PackageBuilder
                             Some(inner.into_inner().next().unwrap().as_str().to_string())
                     }
                     Rule::option => {}
+                    Rule::emptyStatement => {}
                     Rule::EOI => {}
                     r => unreachable!("{:?}: {:?}", r, inner),
                 }
-- 
2.43.0


From 5c810afdc955c1a70d77076a4118f4b82e6349d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:21 +0000
Subject: [PATCH 11/20] fix: leave whitespace and comments out of the package
 name

---
 src/context/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 90cc0a5..e94ffe9 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -49,7 +49,7 @@ impl PackageBuilder
                     Rule::import => {}
                     Rule::package => {
                         current_package.name =
-                            Some(inner.into_inner().next().unwrap().as_str().to_string())
+                            Some(parse_ident(inner.into_inner().next().unwrap()))
                     }
                     Rule::option => {}
                     Rule::emptyStatement => {}
-- 
2.43.0


From 4a9844d435e0cb5edd8fd883b0d76b6dde73332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:21 +0000
Subject: [PATCH 12/20] fix: parse a lone 0 as an octal literal instead of
 panicking

---
 src/context/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index e94ffe9..079104f 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -329,7 +329,7 @@ pub fn parse_uint_literal(p: Pair<Rule>) -> u64
             let lit = inner.next().unwrap();
             match lit.as_rule() {
                 Rule::decimalLit => str::parse(lit.as_str()).unwrap(),
-                Rule::octalLit => u64::from_str_radix(&lit.as_str()[1..], 8).unwrap(),
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8).unwrap(),
                 Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
                 r => unreachable!("{:?}: {:?}", r, lit),
             }
-- 
2.43.0


From 403dbbeebca015455f7931ff996d99d054e9242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 13/20] fix: reject a signed field number as a syntax error
 instead of panicking

---
 src/context/parse.rs | 3 +--
 src/proto.pest       | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 079104f..d91046a 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -323,8 +323,7 @@ impl RpcArgBuilder
 pub fn parse_uint_literal(p: Pair<Rule>) -> u64
 {
     match p.as_rule() {
-        Rule::fieldNumber => parse_uint_literal(p.into_inner().next().unwrap()),
-        Rule::intLit => {
+        Rule::fieldNumber => {
             let mut inner = p.into_inner();
             let lit = inner.next().unwrap();
             match lit.as_rule() {
diff --git a/src/proto.pest b/src/proto.pest
index 789dca4..5d70429 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -57,7 +57,7 @@ optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 type_ = { "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
     | "sint32" | "sint64" | "fixed32" | "fixed64" | "sfixed32" | "sfixed64"
     | "bool" | "string" | "bytes" | messageType | enumType }
-fieldNumber = { intLit }
+fieldNumber = { hexLit | octalLit | decimalLit }
 
 optional = { "optional" }
 repeated = { "repeated" }
-- 
2.43.0


From 82861d89a732d9b48c40e1999865f76d4e8a6cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 14/20] fix: report unrepresentable literals and map fields as
 errors instead of panicking

---
 src/context/parse.rs | 152 +++++++++++++++++++++++--------------------
 1 file changed, 81 insertions(+), 71 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index d91046a..a439029 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -3,6 +3,7 @@ use pest::{
     iterators::{Pair, Pairs},
     Parser,
 };
+use std::convert::TryFrom;
 
 use super::builder::*;
 use super::*;
@@ -45,7 +46,7 @@ impl PackageBuilder
                     Rule::syntax => {}
                     Rule::topLevelDef => current_package
                         .types
-                        .push(ProtobufItemBuilder::parse(inner)),
+                        .push(ProtobufItemBuilder::parse(inner)?),
                     Rule::import => {}
                     Rule::package => {
                         current_package.name =
@@ -65,25 +66,25 @@ impl PackageBuilder
 
 impl ProtobufItemBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let pair = p.into_inner().next().unwrap();
-        match pair.as_rule() {
-            Rule::message => {
-                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(MessageBuilder::parse(pair)))
-            }
+        Ok(match pair.as_rule() {
+            Rule::message => ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(
+                MessageBuilder::parse(pair)?,
+            )),
             Rule::enum_ => {
-                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder::parse(pair)))
+                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder::parse(pair)?))
             }
-            Rule::service => ProtobufItemBuilder::Service(ServiceBuilder::parse(pair)),
+            Rule::service => ProtobufItemBuilder::Service(ServiceBuilder::parse(pair)?),
             r => unreachable!("{:?}: {:?}", r, pair),
-        }
+        })
     }
 }
 
 impl MessageBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap().as_str().to_string();
@@ -95,33 +96,33 @@ impl MessageBuilder
         let body = inner.next().unwrap();
         for p in body.into_inner() {
             match p.as_rule() {
-                Rule::field => fields.push(FieldBuilder::parse(p)),
-                Rule::enum_ => inner_types.push(InnerTypeBuilder::Enum(EnumBuilder::parse(p))),
+                Rule::field => fields.push(FieldBuilder::parse(p)?),
+                Rule::enum_ => inner_types.push(InnerTypeBuilder::Enum(EnumBuilder::parse(p)?)),
                 Rule::message => {
-                    inner_types.push(InnerTypeBuilder::Message(MessageBuilder::parse(p)))
+                    inner_types.push(InnerTypeBuilder::Message(MessageBuilder::parse(p)?))
                 }
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::oneof => oneofs.push(OneofBuilder::parse(p)),
-                Rule::mapField => unimplemented!("Maps are not supported"),
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::oneof => oneofs.push(OneofBuilder::parse(p)?),
+                Rule::mapField => return Err(syntax_error("Maps are not supported")),
                 Rule::reserved => {} // We don't need to care about reserved field numbers.
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        MessageBuilder {
+        Ok(MessageBuilder {
             name,
             fields,
             oneofs,
             inner_types,
             options,
-        }
+        })
     }
 }
 
 impl EnumBuilder
 {
-    fn parse(p: Pair<Rule>) -> EnumBuilder
+    fn parse(p: Pair<Rule>) -> Result<EnumBuilder, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap().as_str().to_string();
@@ -135,27 +136,27 @@ impl EnumBuilder
                     let mut inner = p.into_inner();
                     fields.push(EnumField {
                         name: inner.next().unwrap().as_str().to_string(),
-                        value: parse_int_literal(inner.next().unwrap()),
-                        options: ProtoOption::parse_options(inner),
+                        value: parse_int_literal(inner.next().unwrap())?,
+                        options: ProtoOption::parse_options(inner)?,
                     })
                 }
-                Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        EnumBuilder {
+        Ok(EnumBuilder {
             name,
             fields,
             options,
-        }
+        })
     }
 }
 
 impl ServiceBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap();
@@ -163,24 +164,24 @@ impl ServiceBuilder
         let mut options = vec![];
         for p in inner {
             match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::rpc => rpcs.push(RpcBuilder::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::rpc => rpcs.push(RpcBuilder::parse(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        ServiceBuilder {
+        Ok(ServiceBuilder {
             name: name.as_str().to_string(),
             rpcs,
             options,
-        }
+        })
     }
 }
 
 impl FieldBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let multiplicity = match inner.next().unwrap().into_inner().next() {
@@ -196,47 +197,47 @@ impl FieldBuilder
         };
         let field_type = parse_field_type(inner.next().unwrap().as_str());
         let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap());
+        let number = parse_uint_literal(inner.next().unwrap())?;
 
         let options = match inner.next() {
-            Some(p) => ProtoOption::parse_options(p.into_inner()),
+            Some(p) => ProtoOption::parse_options(p.into_inner())?,
             None => vec![],
         };
 
-        FieldBuilder {
+        Ok(FieldBuilder {
             multiplicity,
             field_type,
             name,
             number,
             options,
-        }
+        })
     }
 
-    pub fn parse_oneof(p: Pair<Rule>) -> Self
+    pub fn parse_oneof(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let field_type = parse_field_type(inner.next().unwrap().as_str());
         let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap());
+        let number = parse_uint_literal(inner.next().unwrap())?;
 
         let options = match inner.next() {
-            Some(p) => ProtoOption::parse_options(p.into_inner()),
+            Some(p) => ProtoOption::parse_options(p.into_inner())?,
             None => vec![],
         };
 
-        FieldBuilder {
+        Ok(FieldBuilder {
             multiplicity: Multiplicity::Single,
             field_type,
             name,
             number,
             options,
-        }
+        })
     }
 }
 
 impl OneofBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap().as_str().to_string();
@@ -244,20 +245,26 @@ impl OneofBuilder
         let mut fields = vec![];
         for p in inner {
             match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::oneofField => fields.push(FieldBuilder::parse_oneof(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::oneofField => fields.push(FieldBuilder::parse_oneof(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
-        OneofBuilder {
+        Ok(OneofBuilder {
             name,
             fields,
             options,
-        }
+        })
     }
 }
 
+/// Wraps an error encountered in the source into a `ParseError`.
+fn syntax_error(e: impl Into<Box<dyn std::error::Error + Send + Sync>>) -> ParseError
+{
+    ParseError::SyntaxError { source: e.into() }
+}
+
 fn parse_field_type(t: &str) -> FieldTypeBuilder
 {
     FieldTypeBuilder::Builtin(match t {
@@ -282,7 +289,7 @@ fn parse_field_type(t: &str) -> FieldTypeBuilder
 
 impl RpcBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap();
@@ -293,18 +300,18 @@ impl RpcBuilder
         let mut options = vec![];
         for p in inner {
             match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        RpcBuilder {
+        Ok(RpcBuilder {
             name: name.as_str().to_string(),
             input,
             output,
             options,
-        }
+        })
     }
 }
 
@@ -320,16 +327,16 @@ impl RpcArgBuilder
     }
 }
 
-pub fn parse_uint_literal(p: Pair<Rule>) -> u64
+pub fn parse_uint_literal(p: Pair<Rule>) -> Result<u64, ParseError>
 {
     match p.as_rule() {
         Rule::fieldNumber => {
             let mut inner = p.into_inner();
             let lit = inner.next().unwrap();
             match lit.as_rule() {
-                Rule::decimalLit => str::parse(lit.as_str()).unwrap(),
-                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8).unwrap(),
-                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+                Rule::decimalLit => str::parse(lit.as_str()).map_err(syntax_error),
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8).map_err(syntax_error),
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).map_err(syntax_error),
                 r => unreachable!("{:?}: {:?}", r, lit),
             }
         }
@@ -337,7 +344,7 @@ pub fn parse_uint_literal(p: Pair<Rule>) -> u64
     }
 }
 
-pub fn parse_int_literal(p: Pair<Rule>) -> i64
+pub fn parse_int_literal(p: Pair<Rule>) -> Result<i64, ParseError>
 {
     match p.as_rule() {
         Rule::intLit => {
@@ -348,12 +355,14 @@ pub fn parse_int_literal(p: Pair<Rule>) -> i64
                 Rule::sign if sign.as_str() == "+" => (1, inner.next().unwrap()),
                 _ => (1, sign),
             };
-            match lit.as_rule() {
-                Rule::decimalLit => sign * str::parse::<i64>(lit.as_str()).unwrap(),
-                Rule::octalLit => sign * i64::from_str_radix(lit.as_str(), 8).unwrap(),
-                Rule::hexLit => sign * i64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+            // The magnitude of the minimum value doesn't fit i64 before the sign is applied.
+            let magnitude = match lit.as_rule() {
+                Rule::decimalLit => str::parse::<u64>(lit.as_str()).map_err(syntax_error)?,
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8).map_err(syntax_error)?,
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).map_err(syntax_error)?,
                 r => unreachable!("{:?}: {:?}", r, lit),
-            }
+            };
+            i64::try_from(sign * i128::from(magnitude)).map_err(syntax_error)
         }
         r => unreachable!("{:?}: {:?}", r, p),
     }
@@ -369,16 +378,16 @@ pub fn parse_float_literal(p: Pair<Rule>) -> f64
 
 impl ProtoOption
 {
-    fn parse(p: Pair<Rule>) -> Self
+    fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
-        Self {
+        Ok(Self {
             name: parse_ident(inner.next().unwrap()),
-            value: Constant::parse(inner.next().unwrap()),
-        }
+            value: Constant::parse(inner.next().unwrap())?,
+        })
     }
 
-    fn parse_options(pairs: Pairs<Rule>) -> Vec<Self>
+    fn parse_options(pairs: Pairs<Rule>) -> Result<Vec<Self>, ParseError>
     {
         pairs
             .map(|p| match p.as_rule() {
@@ -393,17 +402,17 @@ impl ProtoOption
 
 impl Constant
 {
-    fn parse(p: Pair<Rule>) -> Self
+    fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let p = p.into_inner().next().unwrap();
-        match p.as_rule() {
+        Ok(match p.as_rule() {
             Rule::fullIdent => Constant::Ident(parse_ident(p)),
-            Rule::intLit => Constant::Integer(parse_int_literal(p)),
+            Rule::intLit => Constant::Integer(parse_int_literal(p)?),
             Rule::floatLit => Constant::Float(parse_float_literal(p)),
-            Rule::strLit => Constant::String(parse_string_literal(p)),
+            Rule::strLit => Constant::String(parse_string_literal(p)?),
             Rule::boolLit => Constant::Bool(p.as_str() == "true"),
             r => unreachable!("{:?}: {:?}", r, p),
-        }
+        })
     }
 }
 
@@ -429,7 +438,7 @@ fn parse_ident(p: Pair<Rule>) -> String
     ident.join(".")
 }
 
-fn parse_string_literal(s: Pair<Rule>) -> Bytes
+fn parse_string_literal(s: Pair<Rule>) -> Result<Bytes, ParseError>
 {
     let inner = s.into_inner();
     let mut output = BytesMut::new();
@@ -443,7 +452,8 @@ fn parse_string_literal(s: Pair<Rule>) -> Bytes
             }
             Rule::octEscape => {
                 output.put_u8(
-                    u8::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap(),
+                    u8::from_str_radix(c.into_inner().next().unwrap().as_str(), 8)
+                        .map_err(syntax_error)?,
                 );
             }
             Rule::charEscape => match c.into_inner().next().unwrap().as_str() {
@@ -463,7 +473,7 @@ fn parse_string_literal(s: Pair<Rule>) -> Bytes
             r => unreachable!("{:?}: {:?}", r, c),
         }
     }
-    output.freeze()
+    Ok(output.freeze())
 }
 
 #[cfg(test)]
-- 
2.43.0


From f608e8bf26b09228deab6fa07aca8d2fd56dfdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:37 +0000
Subject: [PATCH 15/20] fix: parse float constants and identifiers that start
 with a literal keyword

---
 src/proto.pest | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 5d70429..8f83e72 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -7,7 +7,8 @@ decimalDigit = { '0'..'9' }
 octalDigit = { '0'..'7' }
 hexDigit = { '0'..'9' | 'A'..'F' | 'a'..'f' }
 
-ident = @{ letter ~ ( letter | decimalDigit | "_" )* }
+identChar = { letter | decimalDigit | "_" }
+ident = @{ letter ~ identChar* }
 fullIdent = { ident ~ ( "." ~ ident )* }
 messageName = { ident }
 enumName = { ident }
@@ -25,11 +26,11 @@ decimalLit = @{ '1'..'9' ~ decimalDigit* }
 octalLit = @{ "0" ~ octalDigit* }
 hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ }
 
-floatLit = { sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | "inf" | "nan" ) }
+floatLit = @{ sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | ( "inf" | "nan" ) ~ !identChar ) }
 decimals = { decimalDigit+ }
 exponent = { ( "e" | "E" ) ~ sign? ~ decimals }
 
-boolLit = { "true" | "false" }
+boolLit = @{ ( "true" | "false" ) ~ !identChar }
 
 strLit = ${ "'" ~ charValueQuot* ~ "'" | "\"" ~ charValueDblQuot* ~ "\"" }
 charValueQuot = ${ hexEscape | octEscape | charEscape | !( "\0" | "\n" | "\\" | "'" ) ~ anyChar }
@@ -45,7 +46,7 @@ quote = { "'" | "\"" }
 
 emptyStatement = { ";" }
 
-constant = { intLit | floatLit | strLit | boolLit | fullIdent }
+constant = { floatLit | intLit | strLit | boolLit | fullIdent }
 
 syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-- 
2.43.0


From 7595f2ff503f260d6b09534a4cc0417512d0c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 16/20] fix: match keywords and built-in type names as whole
 words

---
 src/proto.pest | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 8f83e72..d6ddae6 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -52,16 +52,18 @@ syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
 package = { "package" ~ fullIdent ~ ";" }
 
-option = { "option" ~ optionName ~ "=" ~ constant ~ ";" }
+optionKeyword = @{ "option" ~ !identChar }
+option = { &optionKeyword ~ "option" ~ optionName ~ "=" ~ constant ~ ";" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 
-type_ = { "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
+builtinType = @{ ( "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
     | "sint32" | "sint64" | "fixed32" | "fixed64" | "sfixed32" | "sfixed64"
-    | "bool" | "string" | "bytes" | messageType | enumType }
+    | "bool" | "string" | "bytes" ) ~ !( identChar | "." ) }
+type_ = { builtinType | messageType | enumType }
 fieldNumber = { hexLit | octalLit | decimalLit }
 
-optional = { "optional" }
-repeated = { "repeated" }
+optional = @{ "optional" ~ !identChar }
+repeated = @{ "repeated" ~ !identChar }
 one_multiplicity = { repeated | optional }
 multiplicity = { one_multiplicity? }
 field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
@@ -89,7 +91,7 @@ message = { "message" ~ messageName ~ messageBody }
 messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
-stream = { "stream" }
+stream = @{ "stream" ~ !identChar }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
 rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
-- 
2.43.0


From b1c021d934cc09ac7f79be59cdba6f4f0d71c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:41 +0000
Subject: [PATCH 17/20] fix: parse an option with an integer value in a message
 as an option

---
 src/proto.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto.pest b/src/proto.pest
index d6ddae6..683d869 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -88,7 +88,7 @@ enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValue
 enumValueOption = { optionName ~ "=" ~ constant }
 
 message = { "message" ~ messageName ~ messageBody }
-messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
+messageBody = { "{" ~ ( option | field | enum_ | message | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
 stream = @{ "stream" ~ !identChar }
-- 
2.43.0


From 58308dd374cdc93c05b77d984c38875aec3fa146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 18/20] fix: leave whitespace and comments out of type
 references

---
 src/context/parse.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index a439029..f32a543 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -195,7 +195,7 @@ impl FieldBuilder
             }
             None => Multiplicity::Single,
         };
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
+        let field_type = parse_field_type(&parse_type_name(inner.next().unwrap()));
         let name = inner.next().unwrap().as_str().to_string();
         let number = parse_uint_literal(inner.next().unwrap())?;
 
@@ -216,7 +216,7 @@ impl FieldBuilder
     pub fn parse_oneof(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
+        let field_type = parse_field_type(&parse_type_name(inner.next().unwrap()));
         let name = inner.next().unwrap().as_str().to_string();
         let number = parse_uint_literal(inner.next().unwrap())?;
 
@@ -265,6 +265,21 @@ fn syntax_error(e: impl Into<Box<dyn std::error::Error + Send + Sync>>) -> Parse
     ParseError::SyntaxError { source: e.into() }
 }
 
+/// Gets the type name without the whitespace and comments that may surround its dots.
+fn parse_type_name(p: Pair<Rule>) -> String
+{
+    match p.as_rule() {
+        Rule::type_ => parse_type_name(p.into_inner().next().unwrap()),
+        Rule::builtinType => p.as_str().to_string(),
+        Rule::messageType | Rule::enumType => {
+            let root = if p.as_str().starts_with('.') { "." } else { "" };
+            let idents: Vec<_> = p.into_inner().map(|ident| ident.as_str()).collect();
+            format!("{}{}", root, idents.join("."))
+        }
+        r => unreachable!("{:?}: {:?}", r, p),
+    }
+}
+
 fn parse_field_type(t: &str) -> FieldTypeBuilder
 {
     FieldTypeBuilder::Builtin(match t {
@@ -322,7 +337,7 @@ impl RpcArgBuilder
         let mut inner = p.into_inner();
         RpcArgBuilder {
             stream: inner.next().unwrap().into_inner().next().is_some(),
-            message: inner.next().unwrap().as_str().to_string(),
+            message: parse_type_name(inner.next().unwrap()),
         }
     }
 }
-- 
2.43.0


From 109315831398c596401390b0003b6ee58fbdeadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:14 +0000
Subject: [PATCH 19/20] fix: reject a oneof that claims a field of another
 oneof

---
 src/context/mod.rs        | 7 +++++++
 src/context/modify_api.rs | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 518e150..df07797 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -130,6 +130,13 @@ pub enum OneofInsertError
         /// Field number the Oneof referenced.
         field: u64,
     },
+
+    /// The oneof refers to a field that is already part of another oneof.
+    FieldInOneof
+    {
+        /// Field number the Oneof referenced.
+        field: u64,
+    },
 }
 
 /// Type reference that references either message or enum type.
diff --git a/src/context/modify_api.rs b/src/context/modify_api.rs
index 2a80035..48b72e7 100644
--- a/src/context/modify_api.rs
+++ b/src/context/modify_api.rs
@@ -185,9 +185,13 @@ impl MessageInfo
 
         // Ensure none of the existing fields are part of oneofs.
         for f in &oneof.fields {
-            self.fields
+            let field = self
+                .fields
                 .get(f)
                 .ok_or(OneofInsertError::FieldNotFound { field: *f })?;
+            if field.oneof.is_some() {
+                return Err(OneofInsertError::FieldInOneof { field: *f });
+            }
         }
 
         // From here on we're making changes to self.
-- 
2.43.0


From 45e570cf5f244dcfefce24fdf770f90bbd68822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:32 +0000
Subject: [PATCH 20/20] fix: decode a packed field of a type that cannot be
 packed without panicking

---
 src/context/api.rs | 9 +++++++++
 src/decode.rs      | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/context/api.rs b/src/context/api.rs
index ca871f6..acc05cc 100644
--- a/src/context/api.rs
+++ b/src/context/api.rs
@@ -184,4 +184,13 @@ impl ValueType
             Self::Enum(..) => 0,
         }
     }
+
+    /// Whether repeated fields of this type can be encoded as packed arrays.
+    pub(crate) fn is_packable(&self) -> bool
+    {
+        !matches!(
+            self,
+            Self::String | Self::Bytes | Self::Message(..) | Self::Enum(..)
+        )
+    }
 }
diff --git a/src/decode.rs b/src/decode.rs
index 59dbfa2..396d073 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -604,7 +604,9 @@ impl MessageInfo
 
             let value = match self.get_field(number) {
                 Some(field) => {
-                    if field.multiplicity == Multiplicity::RepeatedPacked {
+                    if field.multiplicity == Multiplicity::RepeatedPacked
+                        && field.field_type.is_packable()
+                    {
                         if wire_type == 2 {
                             Value::decode_packed(&mut data, wire_type, &field.field_type)
                         } else {
-- 
2.43.0

