From 357065ea694aa7ea8875fd8b8061d4a263758493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:16 +0000
Subject: [PATCH 01/28] fix: read varints of any value and length without
 panicking

Numbers wider than the declared type are truncated to it, as the protobuf
encoding prescribes, instead of panicking. Varints longer than ten bytes are
not varints: they end up as incomplete values or garbage.
---
 src/decode.rs | 99 ++++++++++++++++++++++-----------------------------
 1 file changed, 43 insertions(+), 56 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 32632c4..688e3aa 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -178,16 +178,18 @@ impl Value
                 try_read_8_bytes(data).map(|b| Value::Double(f64::from_le_bytes(b)))
             }
             ValueType::Float => try_read_4_bytes(data).map(|b| Value::Float(f32::from_le_bytes(b))),
-            ValueType::Int32 => i32::from_signed_varint(data).map(Value::Int32),
-            ValueType::Int64 => i64::from_signed_varint(data).map(Value::Int64),
-            ValueType::UInt32 => u32::from_unsigned_varint(data).map(Value::UInt32),
-            ValueType::UInt64 => u64::from_unsigned_varint(data).map(Value::UInt64),
-            ValueType::SInt32 => u32::from_unsigned_varint(data).map(|u| {
+            ValueType::Int32 => read_varint(data).map(|v| Value::Int32(v as i32)),
+            ValueType::Int64 => read_varint(data).map(|v| Value::Int64(v as i64)),
+            ValueType::UInt32 => read_varint(data).map(|v| Value::UInt32(v as u32)),
+            ValueType::UInt64 => read_varint(data).map(|v| Value::UInt64(v as u64)),
+            ValueType::SInt32 => read_varint(data).map(|v| {
+                let u = v as u32;
                 let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                 let magnitude = (u / 2) as i32 + sign_bit;
                 Value::SInt32(sign * magnitude)
             }),
-            ValueType::SInt64 => u64::from_unsigned_varint(data).map(|u| {
+            ValueType::SInt64 => read_varint(data).map(|v| {
+                let u = v as u64;
                 let (sign, sign_bit) = if u % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
                 let magnitude = (u / 2) as i64 + sign_bit;
                 Value::SInt64(sign * magnitude)
@@ -204,13 +206,13 @@ impl Value
             ValueType::SFixed64 => {
                 try_read_8_bytes(data).map(|b| Value::SFixed64(i64::from_le_bytes(b)))
             }
-            ValueType::Bool => usize::from_unsigned_varint(data).map(|u| Value::Bool(u != 0)),
+            ValueType::Bool => read_varint(data).map(|v| Value::Bool(v as u64 != 0)),
             ValueType::String => read_string(data).map(Value::String),
             ValueType::Bytes => read_bytes(data).map(Value::Bytes),
-            ValueType::Enum(eref) => i64::from_signed_varint(data).map(|v| {
+            ValueType::Enum(eref) => read_varint(data).map(|v| {
                 Value::Enum(EnumValue {
                     enum_ref: *eref,
-                    value: v,
+                    value: v as i64,
                 })
             }),
             ValueType::Message(mref) => usize::from_unsigned_varint(data).and_then(|length| {
@@ -279,26 +281,28 @@ impl Value
                 read_packed! { Float @ b = try_read_4_bytes(&mut array) => f32::from_le_bytes(b) }
             }
             ValueType::Int32 => {
-                read_packed! { Int32 @ b = i32::from_signed_varint(&mut array) => b }
+                read_packed! { Int32 @ b = read_varint(&mut array) => b as i32 }
             }
             ValueType::Int64 => {
-                read_packed! { Int64 @ b = i64::from_signed_varint(&mut array) => b }
+                read_packed! { Int64 @ b = read_varint(&mut array) => b as i64 }
             }
             ValueType::UInt32 => {
-                read_packed! { UInt32 @ b = u32::from_signed_varint(&mut array) => b }
+                read_packed! { UInt32 @ b = read_varint(&mut array) => b as u32 }
             }
             ValueType::UInt64 => {
-                read_packed! { UInt64 @ b = u64::from_signed_varint(&mut array) => b }
+                read_packed! { UInt64 @ b = read_varint(&mut array) => b as u64 }
             }
             ValueType::SInt32 => {
-                read_packed! { SInt32 @ b = u32::from_signed_varint(&mut array) => {
+                read_packed! { SInt32 @ b = read_varint(&mut array) => {
+                    let b = b as u32;
                     let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                     let magnitude = (b / 2) as i32 + sign_bit;
                     sign * magnitude
                 } }
             }
             ValueType::SInt64 => {
-                read_packed! { SInt64 @ b = u64::from_signed_varint(&mut array) => {
+                read_packed! { SInt64 @ b = read_varint(&mut array) => {
+                    let b = b as u64;
                     let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
                     let magnitude = (b / 2) as i64 + sign_bit;
                     sign * magnitude
@@ -317,7 +321,7 @@ impl Value
                 read_packed! { SFixed64 @ b = try_read_8_bytes(&mut array) => i64::from_le_bytes(b) }
             }
             ValueType::Bool => {
-                read_packed! { Bool @ b = u8::from_unsigned_varint(&mut array) => b != 0 }
+                read_packed! { Bool @ b = read_varint(&mut array) => b as u64 != 0 }
             }
             _ => panic!("Non-scalar type was handled as packed"),
         }
@@ -668,31 +672,32 @@ trait ToUnsignedVarint: Sized
     fn into_unsigned_varint(self) -> BytesMut;
 }
 
-impl<T: Default + TryFrom<u64>> FromUnsignedVarint for T
-where
-    T::Error: Debug,
+/// Reads a varint.
+///
+/// Returns `None` without consuming any data if the data doesn't start with a varint. Varints are
+/// at most ten bytes long. The ten bytes may carry more than 64 bits, leave it to the caller to
+/// decide what to do with the excess.
+fn read_varint(data: &mut &[u8]) -> Option<u128>
 {
-    fn from_unsigned_varint(data: &mut &[u8]) -> Option<Self>
-    {
-        let mut result = 0u64;
-        let mut idx = 0;
-        loop {
-            if idx >= data.len() {
-                return None;
-            }
-
-            let b = data[idx];
-            let value = (b & 0x7f) as u64;
-            result += value << (idx * 7);
-
-            idx += 1;
-            if b & 0x80 == 0 {
-                break;
-            }
+    let mut result = 0u128;
+    for (idx, b) in data.iter().take(10).enumerate() {
+        result |= ((b & 0x7f) as u128) << (idx * 7);
+        if b & 0x80 == 0 {
+            *data = &data[idx + 1..];
+            return Some(result);
         }
+    }
 
-        let result = T::try_from(result).expect("Out of range");
-        *data = &data[idx..];
+    None
+}
+
+impl<T: Default + TryFrom<u128>> FromUnsignedVarint for T
+{
+    fn from_unsigned_varint(data: &mut &[u8]) -> Option<Self>
+    {
+        let mut remainder = *data;
+        let result = T::try_from(read_varint(&mut remainder)?).ok()?;
+        *data = remainder;
         Some(result)
     }
 }
@@ -719,29 +724,11 @@ where
     }
 }
 
-trait FromSignedVarint: Sized
-{
-    fn from_signed_varint(data: &mut &[u8]) -> Option<Self>;
-}
-
 trait ToSignedVarint: Sized
 {
     fn into_signed_varint(self) -> BytesMut;
 }
 
-impl<T: Default + TryFrom<i64>> FromSignedVarint for T
-where
-    T::Error: Debug,
-{
-    fn from_signed_varint(data: &mut &[u8]) -> Option<Self>
-    {
-        u64::from_unsigned_varint(data).map(|u| {
-            let signed: i64 = unsafe { std::mem::transmute(u) };
-            signed.try_into().unwrap()
-        })
-    }
-}
-
 impl<T: Default + TryInto<i64>> ToSignedVarint for T
 where
     T::Error: Debug,
-- 
2.43.0


From 398783f14c5497b373768ca5f91f8e2d731c1319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:17 +0000
Subject: [PATCH 02/28] fix: zig-zag numbers over the full range of sint32 and
 sint64

Decoding the most negative number and encoding numbers beyond half of the
range overflowed.
---
 src/decode.rs | 72 +++++++++++++++++++++++----------------------------
 1 file changed, 32 insertions(+), 40 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 688e3aa..6177390 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -182,18 +182,12 @@ impl Value
             ValueType::Int64 => read_varint(data).map(|v| Value::Int64(v as i64)),
             ValueType::UInt32 => read_varint(data).map(|v| Value::UInt32(v as u32)),
             ValueType::UInt64 => read_varint(data).map(|v| Value::UInt64(v as u64)),
-            ValueType::SInt32 => read_varint(data).map(|v| {
-                let u = v as u32;
-                let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                let magnitude = (u / 2) as i32 + sign_bit;
-                Value::SInt32(sign * magnitude)
-            }),
-            ValueType::SInt64 => read_varint(data).map(|v| {
-                let u = v as u64;
-                let (sign, sign_bit) = if u % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                let magnitude = (u / 2) as i64 + sign_bit;
-                Value::SInt64(sign * magnitude)
-            }),
+            ValueType::SInt32 => {
+                read_varint(data).map(|v| Value::SInt32(decode_zigzag32(v as u32)))
+            }
+            ValueType::SInt64 => {
+                read_varint(data).map(|v| Value::SInt64(decode_zigzag64(v as u64)))
+            }
             ValueType::Fixed32 => {
                 try_read_4_bytes(data).map(|b| Value::Fixed32(u32::from_le_bytes(b)))
             }
@@ -293,20 +287,10 @@ impl Value
                 read_packed! { UInt64 @ b = read_varint(&mut array) => b as u64 }
             }
             ValueType::SInt32 => {
-                read_packed! { SInt32 @ b = read_varint(&mut array) => {
-                    let b = b as u32;
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                    let magnitude = (b / 2) as i32 + sign_bit;
-                    sign * magnitude
-                } }
+                read_packed! { SInt32 @ b = read_varint(&mut array) => decode_zigzag32(b as u32) }
             }
             ValueType::SInt64 => {
-                read_packed! { SInt64 @ b = read_varint(&mut array) => {
-                    let b = b as u64;
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                    let magnitude = (b / 2) as i64 + sign_bit;
-                    sign * magnitude
-                } }
+                read_packed! { SInt64 @ b = read_varint(&mut array) => decode_zigzag64(b as u64) }
             }
             ValueType::Fixed32 => {
                 read_packed! { Fixed32 @ b = try_read_4_bytes(&mut array) => u32::from_le_bytes(b) }
@@ -369,14 +353,8 @@ impl Value
             Value::Int64(v) => BytesMut::from(v.into_signed_varint().as_ref()),
             Value::UInt32(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
             Value::UInt64(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
-            Value::SInt32(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
-            }
-            Value::SInt64(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
-            }
+            Value::SInt32(v) => encode_zigzag32(*v).into_unsigned_varint(),
+            Value::SInt64(v) => encode_zigzag64(*v).into_unsigned_varint(),
             Value::Fixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
             Value::Fixed64(v) => BytesMut::from(v.to_le_bytes().as_ref()),
             Value::SFixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
@@ -470,16 +448,10 @@ impl PackedArray
                 write_packed!(v => |v| BytesMut::from(v.into_unsigned_varint().as_ref()))
             }
             PackedArray::SInt32(v) => {
-                write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
-                } }
+                write_packed!(v => |v| encode_zigzag32(*v).into_unsigned_varint())
             }
             PackedArray::SInt64(v) => {
-                write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
-                } }
+                write_packed!(v => |v| encode_zigzag64(*v).into_unsigned_varint())
             }
             PackedArray::Fixed32(v) => {
                 write_packed!( v => |v| BytesMut::from(v.to_le_bytes().as_ref()) )
@@ -662,6 +634,26 @@ impl UnknownValue
     }
 }
 
+fn decode_zigzag32(v: u32) -> i32
+{
+    (v >> 1) as i32 ^ -((v & 1) as i32)
+}
+
+fn decode_zigzag64(v: u64) -> i64
+{
+    (v >> 1) as i64 ^ -((v & 1) as i64)
+}
+
+fn encode_zigzag32(v: i32) -> u32
+{
+    ((v << 1) ^ (v >> 31)) as u32
+}
+
+fn encode_zigzag64(v: i64) -> u64
+{
+    ((v << 1) ^ (v >> 63)) as u64
+}
+
 trait FromUnsignedVarint: Sized
 {
     fn from_unsigned_varint(data: &mut &[u8]) -> Option<Self>;
-- 
2.43.0


From b4a7cb80901b7f243d004db74d514162d896ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:43 +0000
Subject: [PATCH 03/28] fix: consume the data of an incomplete unknown field

The bytes reported in the incomplete value were decoded once more as if they
were the following fields.
---
 src/decode.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 6177390..71155a4 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -321,7 +321,6 @@ impl Value
                     .map(|value| UnknownValue::Fixed64(u64::from_le_bytes(value))),
                 2 => usize::from_unsigned_varint(data).and_then(|length| {
                     if length > data.len() {
-                        *data = original;
                         return None;
                     }
                     let (consumed, remainder) = data.split_at(length);
@@ -341,7 +340,7 @@ impl Value
 
         value
             .map(Value::Unknown)
-            .unwrap_or_else(|| Value::Incomplete(vt, Bytes::copy_from_slice(data)))
+            .unwrap_or_else(|| return_incomplete(data, vt, original))
     }
 
     fn encode(&self, ctx: &Context) -> Option<(u8, BytesMut)>
-- 
2.43.0


From bace588a1f7b149c766d52f8060858eb13aae85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 04/28] fix: limit an incomplete packed array to its own bytes

The incomplete value of a packed array with a broken element contained all of
the remaining message although decoding continues after the array.
---
 src/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decode.rs b/src/decode.rs
index 71155a4..4eba1f3 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -245,6 +245,7 @@ impl Value
 
         let mut array = &data[..length];
         *data = &data[length..];
+        let original = &original[..original.len() - data.len()];
 
         // Reading the packed arrays follows very similar format for each type.  The variances are
         // in how to read the data from the stream and what to do with the data to get the final
-- 
2.43.0


From 1a0ff089735b5aa3e7780cd4b600a56a0bbc398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 05/28] fix: accept packed and expanded encoding for repeated
 scalars

Parsers must accept both encodings for any repeated scalar field. Also stop
trying to decode types that cannot be packed as packed arrays.
---
 src/decode.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 4eba1f3..5aa823d 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -571,14 +571,10 @@ impl MessageInfo
 
             let value = match self.get_field(number) {
                 Some(field) => {
-                    if field.multiplicity == Multiplicity::RepeatedPacked {
-                        if wire_type == 2 {
-                            Value::decode_packed(&mut data, wire_type, &field.field_type)
-                        } else {
-                            Value::decode_unknown(&mut data, wire_type)
-                        }
-                    } else if field.field_type.wire_type() == wire_type {
+                    if field.field_type.wire_type() == wire_type {
                         Value::decode(&mut data, wire_type, &field.field_type, ctx)
+                    } else if wire_type == 2 && field.accepts_packed() {
+                        Value::decode_packed(&mut data, wire_type, &field.field_type)
                     } else {
                         Value::decode_unknown(&mut data, wire_type)
                     }
@@ -593,6 +589,22 @@ impl MessageInfo
     }
 }
 
+impl MessageField
+{
+    /// Tells whether the field values can be received as a packed array.
+    fn accepts_packed(&self) -> bool
+    {
+        // There's no packed array for enums and the other non-scalar types cannot be packed.
+        let packable = !matches!(self.field_type, ValueType::Enum(..))
+            && self.field_type.wire_type() != 2;
+
+        match self.multiplicity {
+            Multiplicity::Repeated | Multiplicity::RepeatedPacked => packable,
+            Multiplicity::Single | Multiplicity::Optional => false,
+        }
+    }
+}
+
 impl MessageValue
 {
     /// Encodes a message value into protobuf wire format.
-- 
2.43.0


From 6bf60048f039d202a2be09c58ee42bd56aa6a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:48 +0000
Subject: [PATCH 06/28] fix: encode the garbage at the end of messages

Decoding a message with an unreadable tail and encoding it again lost the
tail, although other undecodable data is retained.
---
 src/decode.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 5aa823d..faed2c7 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -614,7 +614,8 @@ impl MessageValue
     /// guaranteed, as a message with an equal `MessageRef` may exist in multiple contexts.
     pub fn encode(&self, ctx: &Context) -> bytes::BytesMut
     {
-        self.fields
+        let mut output: BytesMut = self
+            .fields
             .iter()
             .filter_map(|f| f.value.encode(ctx).map(|(w, b)| (f, w, b)))
             .flat_map(|(field, wire_type, bytes)| {
@@ -623,7 +624,12 @@ impl MessageValue
                 field_data.extend_from_slice(&bytes);
                 field_data
             })
-            .collect()
+            .collect();
+
+        if let Some(garbage) = &self.garbage {
+            output.extend_from_slice(garbage);
+        }
+        output
     }
 }
 
-- 
2.43.0


From 41dbe19cd07905247aa2df2b0f7044a3b6fb9500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 07/28] fix: encode unknown varints wider than 64 bits

UnknownValue::Varint holds 128 bits but the encoder panicked on values that do
not fit in 64 bits.
---
 src/decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index faed2c7..091e6bb 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -712,13 +712,13 @@ impl<T: Default + TryFrom<u128>> FromUnsignedVarint for T
     }
 }
 
-impl<T: Default + TryInto<u64>> ToUnsignedVarint for T
+impl<T: Default + TryInto<u128>> ToUnsignedVarint for T
 where
     T::Error: Debug,
 {
     fn into_unsigned_varint(self) -> BytesMut
     {
-        let mut value: u64 = self.try_into().unwrap();
+        let mut value: u128 = self.try_into().unwrap();
         let mut data: Vec<u8> = Vec::with_capacity(8);
         loop {
             let mut byte = (value & 0x7f) as u8;
-- 
2.43.0


From b5901c683f270e0a115c4be22e5aeeff0d7fd84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:15 +0000
Subject: [PATCH 08/28] fix: limit the depth of decoded messages

Every nesting level of the payload took a stack frame, so a payload of a
recursive message type could overflow the stack, which aborts the process.
Messages nested deeper than 100 levels, the limit of the other protobuf
implementations, are left undecoded.
---
 src/decode.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 091e6bb..f059106 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -17,6 +17,12 @@ impl Context
     }
 }
 
+/// Maximum nesting of decoded messages.
+///
+/// Messages nested deeper than this are not decoded. They are returned as unknown variable length
+/// values instead.
+const MAX_DEPTH: usize = 100;
+
 /// Decoded protocol buffer value.
 #[derive(Debug, PartialEq, Clone)]
 pub enum Value
@@ -170,7 +176,7 @@ pub struct FieldValue
 
 impl Value
 {
-    fn decode(data: &mut &[u8], vt_raw: u8, vt: &ValueType, ctx: &Context) -> Self
+    fn decode(data: &mut &[u8], vt_raw: u8, vt: &ValueType, ctx: &Context, depth: usize) -> Self
     {
         let original = *data;
         let opt = match vt {
@@ -217,8 +223,15 @@ impl Value
                 let (consumed, remainder) = data.split_at(length);
                 *data = remainder;
 
+                if depth >= MAX_DEPTH {
+                    return Some(Value::Unknown(UnknownValue::VariableLength(
+                        Bytes::copy_from_slice(consumed),
+                    )));
+                }
+
                 Some(Value::Message(Box::new(
-                    ctx.resolve_message(*mref).decode(consumed, ctx),
+                    ctx.resolve_message(*mref)
+                        .decode_nested(consumed, ctx, depth + 1),
                 )))
             }),
         };
@@ -545,7 +558,15 @@ impl MessageInfo
     /// Will **panic** if the message defined by the `MessageRef` does not exist in this context.
     /// Such panic means the `MessageRef` came from a different context. The panic is not
     /// guaranteed, as a message with an equal `MessageRef` may exist in multiple contexts.
-    pub fn decode(&self, mut data: &[u8], ctx: &Context) -> MessageValue
+    ///
+    /// Messages nested more than 100 levels deep are returned as
+    /// [`UnknownValue::VariableLength`].
+    pub fn decode(&self, data: &[u8], ctx: &Context) -> MessageValue
+    {
+        self.decode_nested(data, ctx, 0)
+    }
+
+    fn decode_nested(&self, mut data: &[u8], ctx: &Context, depth: usize) -> MessageValue
     {
         let mut msg = MessageValue {
             msg_ref: self.self_ref,
@@ -572,7 +593,7 @@ impl MessageInfo
             let value = match self.get_field(number) {
                 Some(field) => {
                     if field.field_type.wire_type() == wire_type {
-                        Value::decode(&mut data, wire_type, &field.field_type, ctx)
+                        Value::decode(&mut data, wire_type, &field.field_type, ctx, depth)
                     } else if wire_type == 2 && field.accepts_packed() {
                         Value::decode_packed(&mut data, wire_type, &field.field_type)
                     } else {
@@ -595,8 +616,8 @@ impl MessageField
     fn accepts_packed(&self) -> bool
     {
         // There's no packed array for enums and the other non-scalar types cannot be packed.
-        let packable = !matches!(self.field_type, ValueType::Enum(..))
-            && self.field_type.wire_type() != 2;
+        let packable =
+            !matches!(self.field_type, ValueType::Enum(..)) && self.field_type.wire_type() != 2;
 
         match self.multiplicity {
             Multiplicity::Repeated | Multiplicity::RepeatedPacked => packable,
-- 
2.43.0


From a938928d6fde3a8f75413005a0378453239d5c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 09/28] fix: accept empty statements at the top level

The grammar allows them but converting the parsed file panicked.
---
 src/context/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 2291819..90cc0a5 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -52,6 +52,7 @@ impl PackageBuilder
                             Some(inner.into_inner().next().unwrap().as_str().to_string())
                     }
                     Rule::option => {}
+                    Rule::emptyStatement => {}
                     Rule::EOI => {}
                     r => unreachable!("{:?}: {:?}", r, inner),
                 }
-- 
2.43.0


From 1fb71b74195c201d970e0fdb4589e8ad59c39df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 10/28] fix: octal escapes above 0377 in string literals

\400 to \777 panicked. Use the low eight bits like protoc does.
---
 src/context/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 90cc0a5..c884caa 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -443,8 +443,9 @@ fn parse_string_literal(s: Pair<Rule>) -> Bytes
                 );
             }
             Rule::octEscape => {
+                // Three octal digits may exceed a byte. Only the low eight bits count.
                 output.put_u8(
-                    u8::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap(),
+                    u16::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap() as u8,
                 );
             }
             Rule::charEscape => match c.into_inner().next().unwrap().as_str() {
-- 
2.43.0


From 9c2fd2613533b1529b1cabda73004b9d8237f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:42 +0000
Subject: [PATCH 11/28] fix: report a service used as a field type as an error

It was considered unreachable and panicked.
---
 src/context/builder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 80d8563..4d6ea26 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -506,7 +506,14 @@ impl FieldTypeBuilder
                 match t.item_type {
                     ItemType::Message => ValueType::Message(MessageRef(InternalRef(t.final_idx))),
                     ItemType::Enum => ValueType::Enum(EnumRef(InternalRef(t.final_idx))),
-                    _ => unreachable!("Service as field type"),
+                    ItemType::Service => {
+                        return Err(ParseError::InvalidTypeKind {
+                            type_name: t.full_name.clone(),
+                            context: "field",
+                            expected: ItemType::Message,
+                            actual: ItemType::Service,
+                        })
+                    }
                 }
             }
         })
-- 
2.43.0


From b5695c1b2bb21cb2dfb59e7812d5a8793106f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 12/28] fix: keep the options of services and rpcs

They were parsed but dropped when building the context.
---
 src/context/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 4d6ea26..5e2b70c 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -671,7 +671,7 @@ impl ServiceBuilder
             full_name: self_data.full_name.clone(),
             rpcs,
             rpcs_by_name,
-            options: vec![],
+            options: self.options,
         })
     }
 }
@@ -684,7 +684,7 @@ impl RpcBuilder
             name: self.name,
             input: self.input.build(self_data, cache)?,
             output: self.output.build(self_data, cache)?,
-            options: vec![],
+            options: self.options,
         })
     }
 }
-- 
2.43.0


From 6822085e02795db66033fa3ff9d63e592aeda4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 13/28] fix: reject adding a field to a second oneof

A field is part of at most one oneof, but add_oneof left a field that already
was part of another one listed in both.
---
 src/context/mod.rs        | 7 +++++++
 src/context/modify_api.rs | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 518e150..d1198e4 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -130,6 +130,13 @@ pub enum OneofInsertError
         /// Field number the Oneof referenced.
         field: u64,
     },
+
+    /// The oneof refers to a field that is already part of a oneof.
+    FieldInOneof
+    {
+        /// Field number the Oneof referenced.
+        field: u64,
+    },
 }
 
 /// Type reference that references either message or enum type.
diff --git a/src/context/modify_api.rs b/src/context/modify_api.rs
index 2a80035..48b72e7 100644
--- a/src/context/modify_api.rs
+++ b/src/context/modify_api.rs
@@ -185,9 +185,13 @@ impl MessageInfo
 
         // Ensure none of the existing fields are part of oneofs.
         for f in &oneof.fields {
-            self.fields
+            let field = self
+                .fields
                 .get(f)
                 .ok_or(OneofInsertError::FieldNotFound { field: *f })?;
+            if field.oneof.is_some() {
+                return Err(OneofInsertError::FieldInOneof { field: *f });
+            }
         }
 
         // From here on we're making changes to self.
-- 
2.43.0


From 439bbf7204f7c71caa34800e64d059c984f7d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:59 +0000
Subject: [PATCH 14/28] fix: keywords end at the end of the word

Keywords were recognised as prefixes of identifiers: types called 'boolean' or
'optionalThing', an rpc argument 'streamThing', an enum value 'options' and
option values such as 'trueish' were rejected or silently misread.
---
 src/proto.pest | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 789dca4..91a0864 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -7,6 +7,7 @@ decimalDigit = { '0'..'9' }
 octalDigit = { '0'..'7' }
 hexDigit = { '0'..'9' | 'A'..'F' | 'a'..'f' }
 
+wordEnd = _{ !( letter | decimalDigit | "_" ) }
 ident = @{ letter ~ ( letter | decimalDigit | "_" )* }
 fullIdent = { ident ~ ( "." ~ ident )* }
 messageName = { ident }
@@ -29,7 +30,7 @@ floatLit = { sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exp
 decimals = { decimalDigit+ }
 exponent = { ( "e" | "E" ) ~ sign? ~ decimals }
 
-boolLit = { "true" | "false" }
+boolLit = @{ ( "true" | "false" ) ~ wordEnd }
 
 strLit = ${ "'" ~ charValueQuot* ~ "'" | "\"" ~ charValueDblQuot* ~ "\"" }
 charValueQuot = ${ hexEscape | octEscape | charEscape | !( "\0" | "\n" | "\\" | "'" ) ~ anyChar }
@@ -51,16 +52,19 @@ syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
 package = { "package" ~ fullIdent ~ ";" }
 
-option = { "option" ~ optionName ~ "=" ~ constant ~ ";" }
+option = { optionKeyword ~ optionName ~ "=" ~ constant ~ ";" }
+optionWord = @{ "option" ~ wordEnd }
+optionKeyword = _{ &optionWord ~ "option" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 
-type_ = { "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
+type_ = { builtinType | messageType | enumType }
+builtinType = @{ ( "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
     | "sint32" | "sint64" | "fixed32" | "fixed64" | "sfixed32" | "sfixed64"
-    | "bool" | "string" | "bytes" | messageType | enumType }
+    | "bool" | "string" | "bytes" ) ~ wordEnd }
 fieldNumber = { intLit }
 
-optional = { "optional" }
-repeated = { "repeated" }
+optional = @{ "optional" ~ wordEnd }
+repeated = @{ "repeated" ~ wordEnd }
 one_multiplicity = { repeated | optional }
 multiplicity = { one_multiplicity? }
 field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
@@ -88,7 +92,7 @@ message = { "message" ~ messageName ~ messageBody }
 messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
-stream = { "stream" }
+stream = @{ "stream" ~ wordEnd }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
 rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
-- 
2.43.0


From b10757fe49351ac8e8f1ba79689dcdd55a6653d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 15/28] fix: float literals in options

Number constants were always taken for integers, so anything but '.5' was
rejected, as were identifiers starting with 'inf' or 'nan'. Space between the
sign and the number panicked.
---
 src/context/parse.rs | 7 ++++++-
 src/proto.pest       | 5 +++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index c884caa..ff943f2 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -363,7 +363,12 @@ pub fn parse_int_literal(p: Pair<Rule>) -> i64
 pub fn parse_float_literal(p: Pair<Rule>) -> f64
 {
     match p.as_rule() {
-        Rule::floatLit => p.as_str().parse::<f64>().unwrap(),
+        Rule::floatLit => p
+            .into_inner()
+            .map(|part| part.as_str())
+            .collect::<String>()
+            .parse::<f64>()
+            .unwrap(),
         r => unreachable!("{:?}: {:?}", r, p),
     }
 }
diff --git a/src/proto.pest b/src/proto.pest
index 91a0864..8e4d519 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -26,7 +26,8 @@ decimalLit = @{ '1'..'9' ~ decimalDigit* }
 octalLit = @{ "0" ~ octalDigit* }
 hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ }
 
-floatLit = { sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | "inf" | "nan" ) }
+floatLit = { sign? ~ floatValue }
+floatValue = @{ decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? | ( "inf" | "nan" ) ~ wordEnd }
 decimals = { decimalDigit+ }
 exponent = { ( "e" | "E" ) ~ sign? ~ decimals }
 
@@ -46,7 +47,7 @@ quote = { "'" | "\"" }
 
 emptyStatement = { ";" }
 
-constant = { intLit | floatLit | strLit | boolLit | fullIdent }
+constant = { floatLit | intLit | strLit | boolLit | fullIdent }
 
 syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-- 
2.43.0


From b46bd36a4359a598ec7add0cc67bf4c9453cbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 16/28] fix: accept quoted names in reserved statements

The published grammar shows bare names, but the language has them quoted.
---
 src/proto.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proto.pest b/src/proto.pest
index 8e4d519..9ca9206 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -82,7 +82,8 @@ keyType = { "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
 reserved = { "reserved" ~ ( ranges | fieldNames ) ~ ";" }
 ranges = { range ~ ( "," ~ range )* }
 range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
-fieldNames = { fieldName ~ ( "," ~ fieldName )* }
+fieldNames = { reservedName ~ ( "," ~ reservedName )* }
+reservedName = { strLit | fieldName }
 
 enum_ = { "enum" ~ enumName ~ enumBody }
 enumBody = { "{" ~ ( option | enumField | emptyStatement )* ~ "}" }
-- 
2.43.0


From a8f33922f094a3568719699c8cda8e8b8d502e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:07 +0000
Subject: [PATCH 17/28] fix: do not take message options for fields

'option foo = 5;' in a message also matches the syntax of a field.
---
 src/proto.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto.pest b/src/proto.pest
index 9ca9206..626671d 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -91,7 +91,7 @@ enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValue
 enumValueOption = { optionName ~ "=" ~ constant }
 
 message = { "message" ~ messageName ~ messageBody }
-messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
+messageBody = { "{" ~ ( option | field | enum_ | message | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
 stream = @{ "stream" ~ wordEnd }
-- 
2.43.0


From cdd939f740efff1f064f43e3fd4d79c3f4e5af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 18/28] fix: whitespace and comments within dotted names

They ended up in the package and type names.
---
 src/context/parse.rs | 1498 +++++++++++++++++++++---------------------
 1 file changed, 756 insertions(+), 742 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index ff943f2..667be92 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -1,742 +1,756 @@
-use bytes::{BufMut, Bytes, BytesMut};
-use pest::{
-    iterators::{Pair, Pairs},
-    Parser,
-};
-
-use super::builder::*;
-use super::*;
-
-#[derive(pest_derive::Parser)]
-#[grammar = "proto.pest"]
-struct ProtoParser;
-
-impl Context
-{
-    /// Parses the files and creates a decoding context.
-    pub fn parse<T, S>(files: T) -> Result<Self, ParseError>
-    where
-        T: IntoIterator<Item = S>,
-        S: AsRef<str>,
-    {
-        let builder = ContextBuilder {
-            packages: files
-                .into_iter()
-                .map(|f| PackageBuilder::parse_str(f.as_ref()))
-                .collect::<Result<_, _>>()?,
-        };
-
-        builder.build()
-    }
-}
-
-impl PackageBuilder
-{
-    pub fn parse_str(input: &str) -> Result<Self, ParseError>
-    {
-        let pairs = ProtoParser::parse(Rule::proto, input)
-            .map_err(|e| Box::new(e) as Box<dyn std::error::Error + Send + Sync>)
-            .context(SyntaxError {})?;
-
-        let mut current_package = PackageBuilder::default();
-        for pair in pairs {
-            for inner in pair.into_inner() {
-                match inner.as_rule() {
-                    Rule::syntax => {}
-                    Rule::topLevelDef => current_package
-                        .types
-                        .push(ProtobufItemBuilder::parse(inner)),
-                    Rule::import => {}
-                    Rule::package => {
-                        current_package.name =
-                            Some(inner.into_inner().next().unwrap().as_str().to_string())
-                    }
-                    Rule::option => {}
-                    Rule::emptyStatement => {}
-                    Rule::EOI => {}
-                    r => unreachable!("{:?}: {:?}", r, inner),
-                }
-            }
-        }
-
-        Ok(current_package)
-    }
-}
-
-impl ProtobufItemBuilder
-{
-    pub fn parse(p: Pair<Rule>) -> Self
-    {
-        let pair = p.into_inner().next().unwrap();
-        match pair.as_rule() {
-            Rule::message => {
-                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(MessageBuilder::parse(pair)))
-            }
-            Rule::enum_ => {
-                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder::parse(pair)))
-            }
-            Rule::service => ProtobufItemBuilder::Service(ServiceBuilder::parse(pair)),
-            r => unreachable!("{:?}: {:?}", r, pair),
-        }
-    }
-}
-
-impl MessageBuilder
-{
-    pub fn parse(p: Pair<Rule>) -> Self
-    {
-        let mut inner = p.into_inner();
-        let name = inner.next().unwrap().as_str().to_string();
-
-        let mut fields = vec![];
-        let mut oneofs = vec![];
-        let mut inner_types = vec![];
-        let mut options = vec![];
-        let body = inner.next().unwrap();
-        for p in body.into_inner() {
-            match p.as_rule() {
-                Rule::field => fields.push(FieldBuilder::parse(p)),
-                Rule::enum_ => inner_types.push(InnerTypeBuilder::Enum(EnumBuilder::parse(p))),
-                Rule::message => {
-                    inner_types.push(InnerTypeBuilder::Message(MessageBuilder::parse(p)))
-                }
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::oneof => oneofs.push(OneofBuilder::parse(p)),
-                Rule::mapField => unimplemented!("Maps are not supported"),
-                Rule::reserved => {} // We don't need to care about reserved field numbers.
-                Rule::emptyStatement => {}
-                r => unreachable!("{:?}: {:?}", r, p),
-            }
-        }
-
-        MessageBuilder {
-            name,
-            fields,
-            oneofs,
-            inner_types,
-            options,
-        }
-    }
-}
-
-impl EnumBuilder
-{
-    fn parse(p: Pair<Rule>) -> EnumBuilder
-    {
-        let mut inner = p.into_inner();
-        let name = inner.next().unwrap().as_str().to_string();
-
-        let mut fields = vec![];
-        let mut options = vec![];
-        let body = inner.next().unwrap();
-        for p in body.into_inner() {
-            match p.as_rule() {
-                Rule::enumField => {
-                    let mut inner = p.into_inner();
-                    fields.push(EnumField {
-                        name: inner.next().unwrap().as_str().to_string(),
-                        value: parse_int_literal(inner.next().unwrap()),
-                        options: ProtoOption::parse_options(inner),
-                    })
-                }
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::emptyStatement => {}
-                r => unreachable!("{:?}: {:?}", r, p),
-            }
-        }
-
-        EnumBuilder {
-            name,
-            fields,
-            options,
-        }
-    }
-}
-
-impl ServiceBuilder
-{
-    pub fn parse(p: Pair<Rule>) -> Self
-    {
-        let mut inner = p.into_inner();
-        let name = inner.next().unwrap();
-        let mut rpcs = vec![];
-        let mut options = vec![];
-        for p in inner {
-            match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::rpc => rpcs.push(RpcBuilder::parse(p)),
-                Rule::emptyStatement => {}
-                r => unreachable!("{:?}: {:?}", r, p),
-            }
-        }
-
-        ServiceBuilder {
-            name: name.as_str().to_string(),
-            rpcs,
-            options,
-        }
-    }
-}
-
-impl FieldBuilder
-{
-    pub fn parse(p: Pair<Rule>) -> Self
-    {
-        let mut inner = p.into_inner();
-        let multiplicity = match inner.next().unwrap().into_inner().next() {
-            Some(t) => {
-                let multiplicity = t.into_inner().next().unwrap().as_rule();
-                match multiplicity {
-                    Rule::optional => Multiplicity::Optional,
-                    Rule::repeated => Multiplicity::Repeated,
-                    r => unreachable!("{:?}: {:?}", r, multiplicity),
-                }
-            }
-            None => Multiplicity::Single,
-        };
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
-        let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap());
-
-        let options = match inner.next() {
-            Some(p) => ProtoOption::parse_options(p.into_inner()),
-            None => vec![],
-        };
-
-        FieldBuilder {
-            multiplicity,
-            field_type,
-            name,
-            number,
-            options,
-        }
-    }
-
-    pub fn parse_oneof(p: Pair<Rule>) -> Self
-    {
-        let mut inner = p.into_inner();
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
-        let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap());
-
-        let options = match inner.next() {
-            Some(p) => ProtoOption::parse_options(p.into_inner()),
-            None => vec![],
-        };
-
-        FieldBuilder {
-            multiplicity: Multiplicity::Single,
-            field_type,
-            name,
-            number,
-            options,
-        }
-    }
-}
-
-impl OneofBuilder
-{
-    pub fn parse(p: Pair<Rule>) -> Self
-    {
-        let mut inner = p.into_inner();
-        let name = inner.next().unwrap().as_str().to_string();
-        let mut options = Vec::new();
-        let mut fields = vec![];
-        for p in inner {
-            match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::oneofField => fields.push(FieldBuilder::parse_oneof(p)),
-                Rule::emptyStatement => {}
-                r => unreachable!("{:?}: {:?}", r, p),
-            }
-        }
-        OneofBuilder {
-            name,
-            fields,
-            options,
-        }
-    }
-}
-
-fn parse_field_type(t: &str) -> FieldTypeBuilder
-{
-    FieldTypeBuilder::Builtin(match t {
-        "double" => ValueType::Double,
-        "float" => ValueType::Float,
-        "int32" => ValueType::Int32,
-        "int64" => ValueType::Int64,
-        "uint32" => ValueType::UInt32,
-        "uint64" => ValueType::UInt64,
-        "sint32" => ValueType::SInt32,
-        "sint64" => ValueType::SInt64,
-        "fixed32" => ValueType::Fixed32,
-        "fixed64" => ValueType::Fixed64,
-        "sfixed32" => ValueType::SFixed32,
-        "sfixed64" => ValueType::SFixed64,
-        "bool" => ValueType::Bool,
-        "string" => ValueType::String,
-        "bytes" => ValueType::Bytes,
-        _ => return FieldTypeBuilder::Unknown(t.to_string()),
-    })
-}
-
-impl RpcBuilder
-{
-    pub fn parse(p: Pair<Rule>) -> Self
-    {
-        let mut inner = p.into_inner();
-        let name = inner.next().unwrap();
-
-        let input = RpcArgBuilder::parse(inner.next().unwrap());
-        let output = RpcArgBuilder::parse(inner.next().unwrap());
-
-        let mut options = vec![];
-        for p in inner {
-            match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::emptyStatement => {}
-                r => unreachable!("{:?}: {:?}", r, p),
-            }
-        }
-
-        RpcBuilder {
-            name: name.as_str().to_string(),
-            input,
-            output,
-            options,
-        }
-    }
-}
-
-impl RpcArgBuilder
-{
-    pub fn parse(p: Pair<Rule>) -> Self
-    {
-        let mut inner = p.into_inner();
-        RpcArgBuilder {
-            stream: inner.next().unwrap().into_inner().next().is_some(),
-            message: inner.next().unwrap().as_str().to_string(),
-        }
-    }
-}
-
-pub fn parse_uint_literal(p: Pair<Rule>) -> u64
-{
-    match p.as_rule() {
-        Rule::fieldNumber => parse_uint_literal(p.into_inner().next().unwrap()),
-        Rule::intLit => {
-            let mut inner = p.into_inner();
-            let lit = inner.next().unwrap();
-            match lit.as_rule() {
-                Rule::decimalLit => str::parse(lit.as_str()).unwrap(),
-                Rule::octalLit => u64::from_str_radix(&lit.as_str()[1..], 8).unwrap(),
-                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
-                r => unreachable!("{:?}: {:?}", r, lit),
-            }
-        }
-        r => unreachable!("{:?}: {:?}", r, p),
-    }
-}
-
-pub fn parse_int_literal(p: Pair<Rule>) -> i64
-{
-    match p.as_rule() {
-        Rule::intLit => {
-            let mut inner = p.into_inner();
-            let sign = inner.next().unwrap();
-            let (sign, lit) = match sign.as_rule() {
-                Rule::sign if sign.as_str() == "-" => (-1, inner.next().unwrap()),
-                Rule::sign if sign.as_str() == "+" => (1, inner.next().unwrap()),
-                _ => (1, sign),
-            };
-            match lit.as_rule() {
-                Rule::decimalLit => sign * str::parse::<i64>(lit.as_str()).unwrap(),
-                Rule::octalLit => sign * i64::from_str_radix(lit.as_str(), 8).unwrap(),
-                Rule::hexLit => sign * i64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
-                r => unreachable!("{:?}: {:?}", r, lit),
-            }
-        }
-        r => unreachable!("{:?}: {:?}", r, p),
-    }
-}
-
-pub fn parse_float_literal(p: Pair<Rule>) -> f64
-{
-    match p.as_rule() {
-        Rule::floatLit => p
-            .into_inner()
-            .map(|part| part.as_str())
-            .collect::<String>()
-            .parse::<f64>()
-            .unwrap(),
-        r => unreachable!("{:?}: {:?}", r, p),
-    }
-}
-
-impl ProtoOption
-{
-    fn parse(p: Pair<Rule>) -> Self
-    {
-        let mut inner = p.into_inner();
-        Self {
-            name: parse_ident(inner.next().unwrap()),
-            value: Constant::parse(inner.next().unwrap()),
-        }
-    }
-
-    fn parse_options(pairs: Pairs<Rule>) -> Vec<Self>
-    {
-        pairs
-            .map(|p| match p.as_rule() {
-                Rule::fieldOption => Self::parse(p),
-                Rule::enumValueOption => Self::parse(p),
-                Rule::option => Self::parse(p),
-                r => unreachable!("{:?}: {:?}", r, p),
-            })
-            .collect()
-    }
-}
-
-impl Constant
-{
-    fn parse(p: Pair<Rule>) -> Self
-    {
-        let p = p.into_inner().next().unwrap();
-        match p.as_rule() {
-            Rule::fullIdent => Constant::Ident(parse_ident(p)),
-            Rule::intLit => Constant::Integer(parse_int_literal(p)),
-            Rule::floatLit => Constant::Float(parse_float_literal(p)),
-            Rule::strLit => Constant::String(parse_string_literal(p)),
-            Rule::boolLit => Constant::Bool(p.as_str() == "true"),
-            r => unreachable!("{:?}: {:?}", r, p),
-        }
-    }
-}
-
-fn parse_ident(p: Pair<Rule>) -> String
-{
-    let mut ident = vec![];
-    let mut inner = p.into_inner();
-
-    let first = inner.next().unwrap();
-    match first.as_rule() {
-        Rule::ident => ident.push(first.as_str().to_string()),
-        Rule::fullIdent => ident.push(format!("({})", parse_ident(first))),
-        r => unreachable!("{:?}: {:?}", r, first),
-    }
-
-    for other in inner {
-        match other.as_rule() {
-            Rule::ident => ident.push(other.as_str().to_string()),
-            r => unreachable!("{:?}: {:?}", r, other),
-        }
-    }
-
-    ident.join(".")
-}
-
-fn parse_string_literal(s: Pair<Rule>) -> Bytes
-{
-    let inner = s.into_inner();
-    let mut output = BytesMut::new();
-    for c in inner {
-        let c = c.into_inner().next().unwrap();
-        match c.as_rule() {
-            Rule::hexEscape => {
-                output.put_u8(
-                    u8::from_str_radix(c.into_inner().next().unwrap().as_str(), 16).unwrap(),
-                );
-            }
-            Rule::octEscape => {
-                // Three octal digits may exceed a byte. Only the low eight bits count.
-                output.put_u8(
-                    u16::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap() as u8,
-                );
-            }
-            Rule::charEscape => match c.into_inner().next().unwrap().as_str() {
-                "a" => output.put_u8(0x07),
-                "b" => output.put_u8(0x08),
-                "f" => output.put_u8(0x0C),
-                "n" => output.put_u8(0x0A),
-                "r" => output.put_u8(0x0D),
-                "t" => output.put_u8(0x09),
-                "v" => output.put_u8(0x0B),
-                "\\" => output.put_u8(0x5C),
-                "\'" => output.put_u8(0x27),
-                "\"" => output.put_u8(0x22),
-                o => unreachable!("Invalid escape sequence \\{}", o),
-            },
-            Rule::anyChar => output.put(c.as_str().as_ref()),
-            r => unreachable!("{:?}: {:?}", r, c),
-        }
-    }
-    output.freeze()
-}
-
-#[cfg(test)]
-mod test
-{
-    use super::*;
-
-    #[test]
-    fn empty()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(
-                r#"
-                syntax = "proto3";
-            "#
-            )
-            .unwrap(),
-            PackageBuilder::default(),
-        );
-    }
-
-    #[test]
-    fn package()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(
-                r#"
-                syntax = "proto3";
-                package Test;
-            "#
-            )
-            .unwrap(),
-            PackageBuilder {
-                name: Some("Test".to_string()),
-                ..Default::default()
-            }
-        );
-    }
-
-    #[test]
-    fn bom()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(&format!(
-                "\u{FEFF}{}",
-                r#"
-                syntax = "proto3";
-                package Test;
-            "#
-            ))
-            .unwrap(),
-            PackageBuilder {
-                name: Some("Test".to_string()),
-                ..Default::default()
-            }
-        );
-    }
-
-    #[test]
-    fn message()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(
-                r#"
-                syntax = "proto3";
-
-                message MyMessage {
-                    int32 value = 1;
-                }
-            "#
-            )
-            .unwrap(),
-            PackageBuilder {
-                types: vec![ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(
-                    MessageBuilder {
-                        name: "MyMessage".to_string(),
-                        fields: vec![FieldBuilder {
-                            multiplicity: Multiplicity::Single,
-                            field_type: FieldTypeBuilder::Builtin(ValueType::Int32),
-                            name: "value".to_string(),
-                            number: 1,
-                            options: vec![],
-                        }],
-                        ..Default::default()
-                    }
-                )),],
-                ..Default::default()
-            }
-        );
-    }
-
-    #[test]
-    fn pbenum()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(
-                r#"
-                syntax = "proto3";
-
-                enum MyEnum {
-                    a = 1;
-                    b = -1;
-                }
-            "#
-            )
-            .unwrap(),
-            PackageBuilder {
-                types: vec![ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(
-                    EnumBuilder {
-                        name: "MyEnum".to_string(),
-                        fields: vec![
-                            EnumField {
-                                name: "a".to_string(),
-                                value: 1,
-                                options: vec![],
-                            },
-                            EnumField {
-                                name: "b".to_string(),
-                                value: -1,
-                                options: vec![],
-                            }
-                        ],
-                        ..Default::default()
-                    }
-                )),],
-                ..Default::default()
-            }
-        );
-    }
-
-    #[test]
-    fn service()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(
-                r#"
-                syntax = "proto3";
-
-                service MyService {
-                    rpc function( Foo ) returns ( stream Bar );
-                }
-            "#
-            )
-            .unwrap(),
-            PackageBuilder {
-                types: vec![ProtobufItemBuilder::Service(ServiceBuilder {
-                    name: "MyService".to_string(),
-                    rpcs: vec![RpcBuilder {
-                        name: "function".to_string(),
-                        input: RpcArgBuilder {
-                            stream: false,
-                            message: "Foo".to_string(),
-                        },
-                        output: RpcArgBuilder {
-                            stream: true,
-                            message: "Bar".to_string(),
-                        },
-                        ..Default::default()
-                    },],
-                    ..Default::default()
-                }),],
-                ..Default::default()
-            }
-        );
-    }
-
-    #[test]
-    fn options()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(
-                r#"
-                syntax = "proto3";
-
-                message Message {
-                    option mOption = "foo";
-                    uint32 field = 1 [ fOption = bar ];
-                }
-
-                enum Enum {
-                    value = 1 [ (a.b).c = 1, o2 = 2 ];
-                    option eOption = "banana";
-                }
-
-                service MyService {
-                    rpc function( Foo ) returns ( stream Bar ) { option o = true; }
-                    option sOption = "bar";
-                }
-            "#
-            )
-            .unwrap(),
-            PackageBuilder {
-                types: vec![
-                    ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(MessageBuilder {
-                        name: "Message".to_string(),
-                        fields: vec![FieldBuilder {
-                            multiplicity: Multiplicity::Single,
-                            field_type: FieldTypeBuilder::Builtin(ValueType::UInt32),
-                            name: "field".to_string(),
-                            number: 1,
-                            options: vec![ProtoOption {
-                                name: "fOption".to_string(),
-                                value: Constant::Ident("bar".to_string()),
-                            }],
-                        }],
-                        options: vec![ProtoOption {
-                            name: "mOption".to_string(),
-                            value: Constant::String(Bytes::from_static(b"foo")),
-                        }],
-                        ..Default::default()
-                    })),
-                    ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder {
-                        name: "Enum".to_string(),
-                        fields: vec![EnumField {
-                            name: "value".to_string(),
-                            value: 1,
-                            options: vec![
-                                ProtoOption {
-                                    name: "(a.b).c".to_string(),
-                                    value: Constant::Integer(1),
-                                },
-                                ProtoOption {
-                                    name: "o2".to_string(),
-                                    value: Constant::Integer(2),
-                                }
-                            ],
-                        }],
-                        options: vec![ProtoOption {
-                            name: "eOption".to_string(),
-                            value: Constant::String(Bytes::from_static(b"banana")),
-                        }],
-                        ..Default::default()
-                    })),
-                    ProtobufItemBuilder::Service(ServiceBuilder {
-                        name: "MyService".to_string(),
-                        rpcs: vec![RpcBuilder {
-                            name: "function".to_string(),
-                            input: RpcArgBuilder {
-                                stream: false,
-                                message: "Foo".to_string(),
-                            },
-                            output: RpcArgBuilder {
-                                stream: true,
-                                message: "Bar".to_string(),
-                            },
-                            options: vec![ProtoOption {
-                                name: "o".to_string(),
-                                value: Constant::Bool(true),
-                            }]
-                        },],
-                        options: vec![ProtoOption {
-                            name: "sOption".to_string(),
-                            value: Constant::String(Bytes::from_static(b"bar")),
-                        }]
-                    }),
-                ],
-                ..Default::default()
-            }
-        );
-    }
-
-    #[test]
-    fn parse_string_vec()
-    {
-        let _ = Context::parse(&["foo", "bar"]);
-        let _ = Context::parse(vec!["foo", "bar"]);
-        let _ = Context::parse(vec!["foo".to_string(), "bar".to_string()]);
-    }
-}
+use bytes::{BufMut, Bytes, BytesMut};
+use pest::{
+    iterators::{Pair, Pairs},
+    Parser,
+};
+
+use super::builder::*;
+use super::*;
+
+#[derive(pest_derive::Parser)]
+#[grammar = "proto.pest"]
+struct ProtoParser;
+
+impl Context
+{
+    /// Parses the files and creates a decoding context.
+    pub fn parse<T, S>(files: T) -> Result<Self, ParseError>
+    where
+        T: IntoIterator<Item = S>,
+        S: AsRef<str>,
+    {
+        let builder = ContextBuilder {
+            packages: files
+                .into_iter()
+                .map(|f| PackageBuilder::parse_str(f.as_ref()))
+                .collect::<Result<_, _>>()?,
+        };
+
+        builder.build()
+    }
+}
+
+impl PackageBuilder
+{
+    pub fn parse_str(input: &str) -> Result<Self, ParseError>
+    {
+        let pairs = ProtoParser::parse(Rule::proto, input)
+            .map_err(|e| Box::new(e) as Box<dyn std::error::Error + Send + Sync>)
+            .context(SyntaxError {})?;
+
+        let mut current_package = PackageBuilder::default();
+        for pair in pairs {
+            for inner in pair.into_inner() {
+                match inner.as_rule() {
+                    Rule::syntax => {}
+                    Rule::topLevelDef => current_package
+                        .types
+                        .push(ProtobufItemBuilder::parse(inner)),
+                    Rule::import => {}
+                    Rule::package => {
+                        current_package.name = Some(parse_ident(inner.into_inner().next().unwrap()))
+                    }
+                    Rule::option => {}
+                    Rule::emptyStatement => {}
+                    Rule::EOI => {}
+                    r => unreachable!("{:?}: {:?}", r, inner),
+                }
+            }
+        }
+
+        Ok(current_package)
+    }
+}
+
+impl ProtobufItemBuilder
+{
+    pub fn parse(p: Pair<Rule>) -> Self
+    {
+        let pair = p.into_inner().next().unwrap();
+        match pair.as_rule() {
+            Rule::message => {
+                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(MessageBuilder::parse(pair)))
+            }
+            Rule::enum_ => {
+                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder::parse(pair)))
+            }
+            Rule::service => ProtobufItemBuilder::Service(ServiceBuilder::parse(pair)),
+            r => unreachable!("{:?}: {:?}", r, pair),
+        }
+    }
+}
+
+impl MessageBuilder
+{
+    pub fn parse(p: Pair<Rule>) -> Self
+    {
+        let mut inner = p.into_inner();
+        let name = inner.next().unwrap().as_str().to_string();
+
+        let mut fields = vec![];
+        let mut oneofs = vec![];
+        let mut inner_types = vec![];
+        let mut options = vec![];
+        let body = inner.next().unwrap();
+        for p in body.into_inner() {
+            match p.as_rule() {
+                Rule::field => fields.push(FieldBuilder::parse(p)),
+                Rule::enum_ => inner_types.push(InnerTypeBuilder::Enum(EnumBuilder::parse(p))),
+                Rule::message => {
+                    inner_types.push(InnerTypeBuilder::Message(MessageBuilder::parse(p)))
+                }
+                Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::oneof => oneofs.push(OneofBuilder::parse(p)),
+                Rule::mapField => unimplemented!("Maps are not supported"),
+                Rule::reserved => {} // We don't need to care about reserved field numbers.
+                Rule::emptyStatement => {}
+                r => unreachable!("{:?}: {:?}", r, p),
+            }
+        }
+
+        MessageBuilder {
+            name,
+            fields,
+            oneofs,
+            inner_types,
+            options,
+        }
+    }
+}
+
+impl EnumBuilder
+{
+    fn parse(p: Pair<Rule>) -> EnumBuilder
+    {
+        let mut inner = p.into_inner();
+        let name = inner.next().unwrap().as_str().to_string();
+
+        let mut fields = vec![];
+        let mut options = vec![];
+        let body = inner.next().unwrap();
+        for p in body.into_inner() {
+            match p.as_rule() {
+                Rule::enumField => {
+                    let mut inner = p.into_inner();
+                    fields.push(EnumField {
+                        name: inner.next().unwrap().as_str().to_string(),
+                        value: parse_int_literal(inner.next().unwrap()),
+                        options: ProtoOption::parse_options(inner),
+                    })
+                }
+                Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::emptyStatement => {}
+                r => unreachable!("{:?}: {:?}", r, p),
+            }
+        }
+
+        EnumBuilder {
+            name,
+            fields,
+            options,
+        }
+    }
+}
+
+impl ServiceBuilder
+{
+    pub fn parse(p: Pair<Rule>) -> Self
+    {
+        let mut inner = p.into_inner();
+        let name = inner.next().unwrap();
+        let mut rpcs = vec![];
+        let mut options = vec![];
+        for p in inner {
+            match p.as_rule() {
+                Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::rpc => rpcs.push(RpcBuilder::parse(p)),
+                Rule::emptyStatement => {}
+                r => unreachable!("{:?}: {:?}", r, p),
+            }
+        }
+
+        ServiceBuilder {
+            name: name.as_str().to_string(),
+            rpcs,
+            options,
+        }
+    }
+}
+
+impl FieldBuilder
+{
+    pub fn parse(p: Pair<Rule>) -> Self
+    {
+        let mut inner = p.into_inner();
+        let multiplicity = match inner.next().unwrap().into_inner().next() {
+            Some(t) => {
+                let multiplicity = t.into_inner().next().unwrap().as_rule();
+                match multiplicity {
+                    Rule::optional => Multiplicity::Optional,
+                    Rule::repeated => Multiplicity::Repeated,
+                    r => unreachable!("{:?}: {:?}", r, multiplicity),
+                }
+            }
+            None => Multiplicity::Single,
+        };
+        let field_type = parse_field_type(inner.next().unwrap());
+        let name = inner.next().unwrap().as_str().to_string();
+        let number = parse_uint_literal(inner.next().unwrap());
+
+        let options = match inner.next() {
+            Some(p) => ProtoOption::parse_options(p.into_inner()),
+            None => vec![],
+        };
+
+        FieldBuilder {
+            multiplicity,
+            field_type,
+            name,
+            number,
+            options,
+        }
+    }
+
+    pub fn parse_oneof(p: Pair<Rule>) -> Self
+    {
+        let mut inner = p.into_inner();
+        let field_type = parse_field_type(inner.next().unwrap());
+        let name = inner.next().unwrap().as_str().to_string();
+        let number = parse_uint_literal(inner.next().unwrap());
+
+        let options = match inner.next() {
+            Some(p) => ProtoOption::parse_options(p.into_inner()),
+            None => vec![],
+        };
+
+        FieldBuilder {
+            multiplicity: Multiplicity::Single,
+            field_type,
+            name,
+            number,
+            options,
+        }
+    }
+}
+
+impl OneofBuilder
+{
+    pub fn parse(p: Pair<Rule>) -> Self
+    {
+        let mut inner = p.into_inner();
+        let name = inner.next().unwrap().as_str().to_string();
+        let mut options = Vec::new();
+        let mut fields = vec![];
+        for p in inner {
+            match p.as_rule() {
+                Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::oneofField => fields.push(FieldBuilder::parse_oneof(p)),
+                Rule::emptyStatement => {}
+                r => unreachable!("{:?}: {:?}", r, p),
+            }
+        }
+        OneofBuilder {
+            name,
+            fields,
+            options,
+        }
+    }
+}
+
+fn parse_field_type(p: Pair<Rule>) -> FieldTypeBuilder
+{
+    FieldTypeBuilder::Builtin(match p.as_str() {
+        "double" => ValueType::Double,
+        "float" => ValueType::Float,
+        "int32" => ValueType::Int32,
+        "int64" => ValueType::Int64,
+        "uint32" => ValueType::UInt32,
+        "uint64" => ValueType::UInt64,
+        "sint32" => ValueType::SInt32,
+        "sint64" => ValueType::SInt64,
+        "fixed32" => ValueType::Fixed32,
+        "fixed64" => ValueType::Fixed64,
+        "sfixed32" => ValueType::SFixed32,
+        "sfixed64" => ValueType::SFixed64,
+        "bool" => ValueType::Bool,
+        "string" => ValueType::String,
+        "bytes" => ValueType::Bytes,
+        _ => return FieldTypeBuilder::Unknown(parse_type_name(p)),
+    })
+}
+
+fn parse_type_name(p: Pair<Rule>) -> String
+{
+    let absolute = p.as_str().starts_with('.');
+    let idents: Vec<_> = p
+        .into_inner()
+        .flatten()
+        .filter(|p| p.as_rule() == Rule::ident)
+        .map(|p| p.as_str())
+        .collect();
+    match absolute {
+        true => format!(".{}", idents.join(".")),
+        false => idents.join("."),
+    }
+}
+
+impl RpcBuilder
+{
+    pub fn parse(p: Pair<Rule>) -> Self
+    {
+        let mut inner = p.into_inner();
+        let name = inner.next().unwrap();
+
+        let input = RpcArgBuilder::parse(inner.next().unwrap());
+        let output = RpcArgBuilder::parse(inner.next().unwrap());
+
+        let mut options = vec![];
+        for p in inner {
+            match p.as_rule() {
+                Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::emptyStatement => {}
+                r => unreachable!("{:?}: {:?}", r, p),
+            }
+        }
+
+        RpcBuilder {
+            name: name.as_str().to_string(),
+            input,
+            output,
+            options,
+        }
+    }
+}
+
+impl RpcArgBuilder
+{
+    pub fn parse(p: Pair<Rule>) -> Self
+    {
+        let mut inner = p.into_inner();
+        RpcArgBuilder {
+            stream: inner.next().unwrap().into_inner().next().is_some(),
+            message: parse_type_name(inner.next().unwrap()),
+        }
+    }
+}
+
+pub fn parse_uint_literal(p: Pair<Rule>) -> u64
+{
+    match p.as_rule() {
+        Rule::fieldNumber => parse_uint_literal(p.into_inner().next().unwrap()),
+        Rule::intLit => {
+            let mut inner = p.into_inner();
+            let lit = inner.next().unwrap();
+            match lit.as_rule() {
+                Rule::decimalLit => str::parse(lit.as_str()).unwrap(),
+                Rule::octalLit => u64::from_str_radix(&lit.as_str()[1..], 8).unwrap(),
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+                r => unreachable!("{:?}: {:?}", r, lit),
+            }
+        }
+        r => unreachable!("{:?}: {:?}", r, p),
+    }
+}
+
+pub fn parse_int_literal(p: Pair<Rule>) -> i64
+{
+    match p.as_rule() {
+        Rule::intLit => {
+            let mut inner = p.into_inner();
+            let sign = inner.next().unwrap();
+            let (sign, lit) = match sign.as_rule() {
+                Rule::sign if sign.as_str() == "-" => (-1, inner.next().unwrap()),
+                Rule::sign if sign.as_str() == "+" => (1, inner.next().unwrap()),
+                _ => (1, sign),
+            };
+            match lit.as_rule() {
+                Rule::decimalLit => sign * str::parse::<i64>(lit.as_str()).unwrap(),
+                Rule::octalLit => sign * i64::from_str_radix(lit.as_str(), 8).unwrap(),
+                Rule::hexLit => sign * i64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+                r => unreachable!("{:?}: {:?}", r, lit),
+            }
+        }
+        r => unreachable!("{:?}: {:?}", r, p),
+    }
+}
+
+pub fn parse_float_literal(p: Pair<Rule>) -> f64
+{
+    match p.as_rule() {
+        Rule::floatLit => p
+            .into_inner()
+            .map(|part| part.as_str())
+            .collect::<String>()
+            .parse::<f64>()
+            .unwrap(),
+        r => unreachable!("{:?}: {:?}", r, p),
+    }
+}
+
+impl ProtoOption
+{
+    fn parse(p: Pair<Rule>) -> Self
+    {
+        let mut inner = p.into_inner();
+        Self {
+            name: parse_ident(inner.next().unwrap()),
+            value: Constant::parse(inner.next().unwrap()),
+        }
+    }
+
+    fn parse_options(pairs: Pairs<Rule>) -> Vec<Self>
+    {
+        pairs
+            .map(|p| match p.as_rule() {
+                Rule::fieldOption => Self::parse(p),
+                Rule::enumValueOption => Self::parse(p),
+                Rule::option => Self::parse(p),
+                r => unreachable!("{:?}: {:?}", r, p),
+            })
+            .collect()
+    }
+}
+
+impl Constant
+{
+    fn parse(p: Pair<Rule>) -> Self
+    {
+        let p = p.into_inner().next().unwrap();
+        match p.as_rule() {
+            Rule::fullIdent => Constant::Ident(parse_ident(p)),
+            Rule::intLit => Constant::Integer(parse_int_literal(p)),
+            Rule::floatLit => Constant::Float(parse_float_literal(p)),
+            Rule::strLit => Constant::String(parse_string_literal(p)),
+            Rule::boolLit => Constant::Bool(p.as_str() == "true"),
+            r => unreachable!("{:?}: {:?}", r, p),
+        }
+    }
+}
+
+fn parse_ident(p: Pair<Rule>) -> String
+{
+    let mut ident = vec![];
+    let mut inner = p.into_inner();
+
+    let first = inner.next().unwrap();
+    match first.as_rule() {
+        Rule::ident => ident.push(first.as_str().to_string()),
+        Rule::fullIdent => ident.push(format!("({})", parse_ident(first))),
+        r => unreachable!("{:?}: {:?}", r, first),
+    }
+
+    for other in inner {
+        match other.as_rule() {
+            Rule::ident => ident.push(other.as_str().to_string()),
+            r => unreachable!("{:?}: {:?}", r, other),
+        }
+    }
+
+    ident.join(".")
+}
+
+fn parse_string_literal(s: Pair<Rule>) -> Bytes
+{
+    let inner = s.into_inner();
+    let mut output = BytesMut::new();
+    for c in inner {
+        let c = c.into_inner().next().unwrap();
+        match c.as_rule() {
+            Rule::hexEscape => {
+                output.put_u8(
+                    u8::from_str_radix(c.into_inner().next().unwrap().as_str(), 16).unwrap(),
+                );
+            }
+            Rule::octEscape => {
+                // Three octal digits may exceed a byte. Only the low eight bits count.
+                output.put_u8(
+                    u16::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap() as u8,
+                );
+            }
+            Rule::charEscape => match c.into_inner().next().unwrap().as_str() {
+                "a" => output.put_u8(0x07),
+                "b" => output.put_u8(0x08),
+                "f" => output.put_u8(0x0C),
+                "n" => output.put_u8(0x0A),
+                "r" => output.put_u8(0x0D),
+                "t" => output.put_u8(0x09),
+                "v" => output.put_u8(0x0B),
+                "\\" => output.put_u8(0x5C),
+                "\'" => output.put_u8(0x27),
+                "\"" => output.put_u8(0x22),
+                o => unreachable!("Invalid escape sequence \\{}", o),
+            },
+            Rule::anyChar => output.put(c.as_str().as_ref()),
+            r => unreachable!("{:?}: {:?}", r, c),
+        }
+    }
+    output.freeze()
+}
+
+#[cfg(test)]
+mod test
+{
+    use super::*;
+
+    #[test]
+    fn empty()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(
+                r#"
+                syntax = "proto3";
+            "#
+            )
+            .unwrap(),
+            PackageBuilder::default(),
+        );
+    }
+
+    #[test]
+    fn package()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(
+                r#"
+                syntax = "proto3";
+                package Test;
+            "#
+            )
+            .unwrap(),
+            PackageBuilder {
+                name: Some("Test".to_string()),
+                ..Default::default()
+            }
+        );
+    }
+
+    #[test]
+    fn bom()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(&format!(
+                "\u{FEFF}{}",
+                r#"
+                syntax = "proto3";
+                package Test;
+            "#
+            ))
+            .unwrap(),
+            PackageBuilder {
+                name: Some("Test".to_string()),
+                ..Default::default()
+            }
+        );
+    }
+
+    #[test]
+    fn message()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(
+                r#"
+                syntax = "proto3";
+
+                message MyMessage {
+                    int32 value = 1;
+                }
+            "#
+            )
+            .unwrap(),
+            PackageBuilder {
+                types: vec![ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(
+                    MessageBuilder {
+                        name: "MyMessage".to_string(),
+                        fields: vec![FieldBuilder {
+                            multiplicity: Multiplicity::Single,
+                            field_type: FieldTypeBuilder::Builtin(ValueType::Int32),
+                            name: "value".to_string(),
+                            number: 1,
+                            options: vec![],
+                        }],
+                        ..Default::default()
+                    }
+                )),],
+                ..Default::default()
+            }
+        );
+    }
+
+    #[test]
+    fn pbenum()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(
+                r#"
+                syntax = "proto3";
+
+                enum MyEnum {
+                    a = 1;
+                    b = -1;
+                }
+            "#
+            )
+            .unwrap(),
+            PackageBuilder {
+                types: vec![ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(
+                    EnumBuilder {
+                        name: "MyEnum".to_string(),
+                        fields: vec![
+                            EnumField {
+                                name: "a".to_string(),
+                                value: 1,
+                                options: vec![],
+                            },
+                            EnumField {
+                                name: "b".to_string(),
+                                value: -1,
+                                options: vec![],
+                            }
+                        ],
+                        ..Default::default()
+                    }
+                )),],
+                ..Default::default()
+            }
+        );
+    }
+
+    #[test]
+    fn service()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(
+                r#"
+                syntax = "proto3";
+
+                service MyService {
+                    rpc function( Foo ) returns ( stream Bar );
+                }
+            "#
+            )
+            .unwrap(),
+            PackageBuilder {
+                types: vec![ProtobufItemBuilder::Service(ServiceBuilder {
+                    name: "MyService".to_string(),
+                    rpcs: vec![RpcBuilder {
+                        name: "function".to_string(),
+                        input: RpcArgBuilder {
+                            stream: false,
+                            message: "Foo".to_string(),
+                        },
+                        output: RpcArgBuilder {
+                            stream: true,
+                            message: "Bar".to_string(),
+                        },
+                        ..Default::default()
+                    },],
+                    ..Default::default()
+                }),],
+                ..Default::default()
+            }
+        );
+    }
+
+    #[test]
+    fn options()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(
+                r#"
+                syntax = "proto3";
+
+                message Message {
+                    option mOption = "foo";
+                    uint32 field = 1 [ fOption = bar ];
+                }
+
+                enum Enum {
+                    value = 1 [ (a.b).c = 1, o2 = 2 ];
+                    option eOption = "banana";
+                }
+
+                service MyService {
+                    rpc function( Foo ) returns ( stream Bar ) { option o = true; }
+                    option sOption = "bar";
+                }
+            "#
+            )
+            .unwrap(),
+            PackageBuilder {
+                types: vec![
+                    ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(MessageBuilder {
+                        name: "Message".to_string(),
+                        fields: vec![FieldBuilder {
+                            multiplicity: Multiplicity::Single,
+                            field_type: FieldTypeBuilder::Builtin(ValueType::UInt32),
+                            name: "field".to_string(),
+                            number: 1,
+                            options: vec![ProtoOption {
+                                name: "fOption".to_string(),
+                                value: Constant::Ident("bar".to_string()),
+                            }],
+                        }],
+                        options: vec![ProtoOption {
+                            name: "mOption".to_string(),
+                            value: Constant::String(Bytes::from_static(b"foo")),
+                        }],
+                        ..Default::default()
+                    })),
+                    ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder {
+                        name: "Enum".to_string(),
+                        fields: vec![EnumField {
+                            name: "value".to_string(),
+                            value: 1,
+                            options: vec![
+                                ProtoOption {
+                                    name: "(a.b).c".to_string(),
+                                    value: Constant::Integer(1),
+                                },
+                                ProtoOption {
+                                    name: "o2".to_string(),
+                                    value: Constant::Integer(2),
+                                }
+                            ],
+                        }],
+                        options: vec![ProtoOption {
+                            name: "eOption".to_string(),
+                            value: Constant::String(Bytes::from_static(b"banana")),
+                        }],
+                        ..Default::default()
+                    })),
+                    ProtobufItemBuilder::Service(ServiceBuilder {
+                        name: "MyService".to_string(),
+                        rpcs: vec![RpcBuilder {
+                            name: "function".to_string(),
+                            input: RpcArgBuilder {
+                                stream: false,
+                                message: "Foo".to_string(),
+                            },
+                            output: RpcArgBuilder {
+                                stream: true,
+                                message: "Bar".to_string(),
+                            },
+                            options: vec![ProtoOption {
+                                name: "o".to_string(),
+                                value: Constant::Bool(true),
+                            }]
+                        },],
+                        options: vec![ProtoOption {
+                            name: "sOption".to_string(),
+                            value: Constant::String(Bytes::from_static(b"bar")),
+                        }]
+                    }),
+                ],
+                ..Default::default()
+            }
+        );
+    }
+
+    #[test]
+    fn parse_string_vec()
+    {
+        let _ = Context::parse(&["foo", "bar"]);
+        let _ = Context::parse(vec!["foo", "bar"]);
+        let _ = Context::parse(vec!["foo".to_string(), "bar".to_string()]);
+    }
+}
-- 
2.43.0


From dacc0d171b1ae95425068c8e77551239a448c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 19/28] fix: report invalid numbers as syntax errors

Numbers that are out of range panicked, as did signed field numbers and the
field number 0. The most negative 64-bit number is in range.
---
 src/context/parse.rs | 154 ++++++++++++++++++++++++-------------------
 1 file changed, 85 insertions(+), 69 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 667be92..f45a3bd 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -45,7 +45,7 @@ impl PackageBuilder
                     Rule::syntax => {}
                     Rule::topLevelDef => current_package
                         .types
-                        .push(ProtobufItemBuilder::parse(inner)),
+                        .push(ProtobufItemBuilder::parse(inner)?),
                     Rule::import => {}
                     Rule::package => {
                         current_package.name = Some(parse_ident(inner.into_inner().next().unwrap()))
@@ -64,25 +64,25 @@ impl PackageBuilder
 
 impl ProtobufItemBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let pair = p.into_inner().next().unwrap();
-        match pair.as_rule() {
-            Rule::message => {
-                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(MessageBuilder::parse(pair)))
-            }
+        Ok(match pair.as_rule() {
+            Rule::message => ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(
+                MessageBuilder::parse(pair)?,
+            )),
             Rule::enum_ => {
-                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder::parse(pair)))
+                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder::parse(pair)?))
             }
-            Rule::service => ProtobufItemBuilder::Service(ServiceBuilder::parse(pair)),
+            Rule::service => ProtobufItemBuilder::Service(ServiceBuilder::parse(pair)?),
             r => unreachable!("{:?}: {:?}", r, pair),
-        }
+        })
     }
 }
 
 impl MessageBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap().as_str().to_string();
@@ -94,13 +94,13 @@ impl MessageBuilder
         let body = inner.next().unwrap();
         for p in body.into_inner() {
             match p.as_rule() {
-                Rule::field => fields.push(FieldBuilder::parse(p)),
-                Rule::enum_ => inner_types.push(InnerTypeBuilder::Enum(EnumBuilder::parse(p))),
+                Rule::field => fields.push(FieldBuilder::parse(p)?),
+                Rule::enum_ => inner_types.push(InnerTypeBuilder::Enum(EnumBuilder::parse(p)?)),
                 Rule::message => {
-                    inner_types.push(InnerTypeBuilder::Message(MessageBuilder::parse(p)))
+                    inner_types.push(InnerTypeBuilder::Message(MessageBuilder::parse(p)?))
                 }
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::oneof => oneofs.push(OneofBuilder::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::oneof => oneofs.push(OneofBuilder::parse(p)?),
                 Rule::mapField => unimplemented!("Maps are not supported"),
                 Rule::reserved => {} // We don't need to care about reserved field numbers.
                 Rule::emptyStatement => {}
@@ -108,19 +108,19 @@ impl MessageBuilder
             }
         }
 
-        MessageBuilder {
+        Ok(MessageBuilder {
             name,
             fields,
             oneofs,
             inner_types,
             options,
-        }
+        })
     }
 }
 
 impl EnumBuilder
 {
-    fn parse(p: Pair<Rule>) -> EnumBuilder
+    fn parse(p: Pair<Rule>) -> Result<EnumBuilder, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap().as_str().to_string();
@@ -134,27 +134,27 @@ impl EnumBuilder
                     let mut inner = p.into_inner();
                     fields.push(EnumField {
                         name: inner.next().unwrap().as_str().to_string(),
-                        value: parse_int_literal(inner.next().unwrap()),
-                        options: ProtoOption::parse_options(inner),
+                        value: parse_int_literal(inner.next().unwrap())?,
+                        options: ProtoOption::parse_options(inner)?,
                     })
                 }
-                Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        EnumBuilder {
+        Ok(EnumBuilder {
             name,
             fields,
             options,
-        }
+        })
     }
 }
 
 impl ServiceBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap();
@@ -162,24 +162,24 @@ impl ServiceBuilder
         let mut options = vec![];
         for p in inner {
             match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::rpc => rpcs.push(RpcBuilder::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::rpc => rpcs.push(RpcBuilder::parse(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        ServiceBuilder {
+        Ok(ServiceBuilder {
             name: name.as_str().to_string(),
             rpcs,
             options,
-        }
+        })
     }
 }
 
 impl FieldBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let multiplicity = match inner.next().unwrap().into_inner().next() {
@@ -195,47 +195,47 @@ impl FieldBuilder
         };
         let field_type = parse_field_type(inner.next().unwrap());
         let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap());
+        let number = parse_uint_literal(inner.next().unwrap())?;
 
         let options = match inner.next() {
-            Some(p) => ProtoOption::parse_options(p.into_inner()),
+            Some(p) => ProtoOption::parse_options(p.into_inner())?,
             None => vec![],
         };
 
-        FieldBuilder {
+        Ok(FieldBuilder {
             multiplicity,
             field_type,
             name,
             number,
             options,
-        }
+        })
     }
 
-    pub fn parse_oneof(p: Pair<Rule>) -> Self
+    pub fn parse_oneof(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let field_type = parse_field_type(inner.next().unwrap());
         let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap());
+        let number = parse_uint_literal(inner.next().unwrap())?;
 
         let options = match inner.next() {
-            Some(p) => ProtoOption::parse_options(p.into_inner()),
+            Some(p) => ProtoOption::parse_options(p.into_inner())?,
             None => vec![],
         };
 
-        FieldBuilder {
+        Ok(FieldBuilder {
             multiplicity: Multiplicity::Single,
             field_type,
             name,
             number,
             options,
-        }
+        })
     }
 }
 
 impl OneofBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap().as_str().to_string();
@@ -243,17 +243,17 @@ impl OneofBuilder
         let mut fields = vec![];
         for p in inner {
             match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::oneofField => fields.push(FieldBuilder::parse_oneof(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::oneofField => fields.push(FieldBuilder::parse_oneof(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
-        OneofBuilder {
+        Ok(OneofBuilder {
             name,
             fields,
             options,
-        }
+        })
     }
 }
 
@@ -296,7 +296,7 @@ fn parse_type_name(p: Pair<Rule>) -> String
 
 impl RpcBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap();
@@ -307,18 +307,18 @@ impl RpcBuilder
         let mut options = vec![];
         for p in inner {
             match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        RpcBuilder {
+        Ok(RpcBuilder {
             name: name.as_str().to_string(),
             input,
             output,
             options,
-        }
+        })
     }
 }
 
@@ -334,46 +334,62 @@ impl RpcArgBuilder
     }
 }
 
-pub fn parse_uint_literal(p: Pair<Rule>) -> u64
+pub fn parse_uint_literal(p: Pair<Rule>) -> Result<u64, ParseError>
 {
     match p.as_rule() {
         Rule::fieldNumber => parse_uint_literal(p.into_inner().next().unwrap()),
         Rule::intLit => {
+            let error = invalid_number(&p);
             let mut inner = p.into_inner();
             let lit = inner.next().unwrap();
             match lit.as_rule() {
-                Rule::decimalLit => str::parse(lit.as_str()).unwrap(),
-                Rule::octalLit => u64::from_str_radix(&lit.as_str()[1..], 8).unwrap(),
-                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+                Rule::decimalLit => str::parse(lit.as_str()),
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8),
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16),
+                Rule::sign => return Err(error),
                 r => unreachable!("{:?}: {:?}", r, lit),
             }
+            .map_err(|_| error)
         }
         r => unreachable!("{:?}: {:?}", r, p),
     }
 }
 
-pub fn parse_int_literal(p: Pair<Rule>) -> i64
+pub fn parse_int_literal(p: Pair<Rule>) -> Result<i64, ParseError>
 {
     match p.as_rule() {
         Rule::intLit => {
+            let error = invalid_number(&p);
             let mut inner = p.into_inner();
             let sign = inner.next().unwrap();
             let (sign, lit) = match sign.as_rule() {
-                Rule::sign if sign.as_str() == "-" => (-1, inner.next().unwrap()),
-                Rule::sign if sign.as_str() == "+" => (1, inner.next().unwrap()),
-                _ => (1, sign),
+                Rule::sign => (sign.as_str(), inner.next().unwrap()),
+                _ => ("", sign),
             };
-            match lit.as_rule() {
-                Rule::decimalLit => sign * str::parse::<i64>(lit.as_str()).unwrap(),
-                Rule::octalLit => sign * i64::from_str_radix(lit.as_str(), 8).unwrap(),
-                Rule::hexLit => sign * i64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+            let (digits, radix) = match lit.as_rule() {
+                Rule::decimalLit => (lit.as_str(), 10),
+                Rule::octalLit => (lit.as_str(), 8),
+                Rule::hexLit => (&lit.as_str()[2..], 16),
                 r => unreachable!("{:?}: {:?}", r, lit),
-            }
+            };
+            i64::from_str_radix(&format!("{}{}", sign, digits), radix).map_err(|_| error)
         }
         r => unreachable!("{:?}: {:?}", r, p),
     }
 }
 
+fn invalid_number(p: &Pair<Rule>) -> ParseError
+{
+    ParseError::SyntaxError {
+        source: Box::new(pest::error::Error::<Rule>::new_from_span(
+            pest::error::ErrorVariant::CustomError {
+                message: "number out of range".to_string(),
+            },
+            p.as_span(),
+        )),
+    }
+}
+
 pub fn parse_float_literal(p: Pair<Rule>) -> f64
 {
     match p.as_rule() {
@@ -389,16 +405,16 @@ pub fn parse_float_literal(p: Pair<Rule>) -> f64
 
 impl ProtoOption
 {
-    fn parse(p: Pair<Rule>) -> Self
+    fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
-        Self {
+        Ok(Self {
             name: parse_ident(inner.next().unwrap()),
-            value: Constant::parse(inner.next().unwrap()),
-        }
+            value: Constant::parse(inner.next().unwrap())?,
+        })
     }
 
-    fn parse_options(pairs: Pairs<Rule>) -> Vec<Self>
+    fn parse_options(pairs: Pairs<Rule>) -> Result<Vec<Self>, ParseError>
     {
         pairs
             .map(|p| match p.as_rule() {
@@ -413,17 +429,17 @@ impl ProtoOption
 
 impl Constant
 {
-    fn parse(p: Pair<Rule>) -> Self
+    fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let p = p.into_inner().next().unwrap();
-        match p.as_rule() {
+        Ok(match p.as_rule() {
             Rule::fullIdent => Constant::Ident(parse_ident(p)),
-            Rule::intLit => Constant::Integer(parse_int_literal(p)),
+            Rule::intLit => Constant::Integer(parse_int_literal(p)?),
             Rule::floatLit => Constant::Float(parse_float_literal(p)),
             Rule::strLit => Constant::String(parse_string_literal(p)),
             Rule::boolLit => Constant::Bool(p.as_str() == "true"),
             r => unreachable!("{:?}: {:?}", r, p),
-        }
+        })
     }
 }
 
-- 
2.43.0


From c303edb8f9587a8f38774a13e21e104702fcb7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 20/28] fix: support map fields

Files with map fields panicked with 'Maps are not supported'. Represent them
the way they are defined by the language: as a repeated field of a nested
entry message with a key and a value.
---
 src/context/parse.rs | 56 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index f45a3bd..be911c3 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -101,7 +101,11 @@ impl MessageBuilder
                 }
                 Rule::option => options.push(ProtoOption::parse(p)?),
                 Rule::oneof => oneofs.push(OneofBuilder::parse(p)?),
-                Rule::mapField => unimplemented!("Maps are not supported"),
+                Rule::mapField => {
+                    let (field, entry) = parse_map_field(p)?;
+                    fields.push(field);
+                    inner_types.push(InnerTypeBuilder::Message(entry));
+                }
                 Rule::reserved => {} // We don't need to care about reserved field numbers.
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
@@ -118,6 +122,56 @@ impl MessageBuilder
     }
 }
 
+/// Parses a map field.
+///
+/// Map fields are syntactic sugar for a repeated field of a nested message with the key and the
+/// value. The name of the message follows the name `protoc` gives to it.
+fn parse_map_field(p: Pair<Rule>) -> Result<(FieldBuilder, MessageBuilder), ParseError>
+{
+    let mut inner = p.into_inner();
+    let key_type = parse_field_type(inner.next().unwrap());
+    let value_type = parse_field_type(inner.next().unwrap());
+    let name = inner.next().unwrap().as_str().to_string();
+    let number = parse_uint_literal(inner.next().unwrap())?;
+    let options = match inner.next() {
+        Some(p) => ProtoOption::parse_options(p.into_inner())?,
+        None => vec![],
+    };
+
+    let mut entry_name = String::new();
+    for word in name.split('_') {
+        let (first, rest) = word.split_at(word.len().min(1));
+        entry_name.push_str(&first.to_ascii_uppercase());
+        entry_name.push_str(rest);
+    }
+    entry_name.push_str("Entry");
+
+    let entry_field = |name: &str, number, field_type| FieldBuilder {
+        multiplicity: Multiplicity::Single,
+        field_type,
+        name: name.to_string(),
+        number,
+        options: vec![],
+    };
+    let entry = MessageBuilder {
+        name: entry_name.clone(),
+        fields: vec![
+            entry_field("key", 1, key_type),
+            entry_field("value", 2, value_type),
+        ],
+        ..Default::default()
+    };
+    let field = FieldBuilder {
+        multiplicity: Multiplicity::Repeated,
+        field_type: FieldTypeBuilder::Unknown(entry_name),
+        name,
+        number,
+        options,
+    };
+
+    Ok((field, entry))
+}
+
 impl EnumBuilder
 {
     fn parse(p: Pair<Rule>) -> Result<EnumBuilder, ParseError>
-- 
2.43.0


From 07d7a479756042600664f01c24346fdc7c5adec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 21/28] fix: limit the nesting of message definitions

Converting deeply nested definitions recursed until the stack overflowed,
which aborts the process. protoc limits the nesting to 32 levels.
---
 src/context/parse.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index be911c3..d6af7b1 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -11,6 +11,9 @@ use super::*;
 #[grammar = "proto.pest"]
 struct ProtoParser;
 
+/// Maximum nesting of message definitions.
+const MAX_NESTING: usize = 100;
+
 impl Context
 {
     /// Parses the files and creates a decoding context.
@@ -69,7 +72,7 @@ impl ProtobufItemBuilder
         let pair = p.into_inner().next().unwrap();
         Ok(match pair.as_rule() {
             Rule::message => ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(
-                MessageBuilder::parse(pair)?,
+                MessageBuilder::parse(pair, 0)?,
             )),
             Rule::enum_ => {
                 ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder::parse(pair)?))
@@ -82,8 +85,12 @@ impl ProtobufItemBuilder
 
 impl MessageBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
+    pub fn parse(p: Pair<Rule>, depth: usize) -> Result<Self, ParseError>
     {
+        if depth > MAX_NESTING {
+            return Err(syntax_error(&p, "messages are nested too deeply"));
+        }
+
         let mut inner = p.into_inner();
         let name = inner.next().unwrap().as_str().to_string();
 
@@ -96,9 +103,9 @@ impl MessageBuilder
             match p.as_rule() {
                 Rule::field => fields.push(FieldBuilder::parse(p)?),
                 Rule::enum_ => inner_types.push(InnerTypeBuilder::Enum(EnumBuilder::parse(p)?)),
-                Rule::message => {
-                    inner_types.push(InnerTypeBuilder::Message(MessageBuilder::parse(p)?))
-                }
+                Rule::message => inner_types.push(InnerTypeBuilder::Message(
+                    MessageBuilder::parse(p, depth + 1)?,
+                )),
                 Rule::option => options.push(ProtoOption::parse(p)?),
                 Rule::oneof => oneofs.push(OneofBuilder::parse(p)?),
                 Rule::mapField => {
@@ -433,11 +440,16 @@ pub fn parse_int_literal(p: Pair<Rule>) -> Result<i64, ParseError>
 }
 
 fn invalid_number(p: &Pair<Rule>) -> ParseError
+{
+    syntax_error(p, "number out of range")
+}
+
+fn syntax_error(p: &Pair<Rule>, message: &str) -> ParseError
 {
     ParseError::SyntaxError {
         source: Box::new(pest::error::Error::<Rule>::new_from_span(
             pest::error::ErrorVariant::CustomError {
-                message: "number out of range".to_string(),
+                message: message.to_string(),
             },
             p.as_span(),
         )),
-- 
2.43.0


From 31374adf2a1f6049941825f4f1be2ce83b19ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 22/28] fix: accept reserved statements in enums

---
 src/context/parse.rs | 1 +
 src/proto.pest       | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index d6af7b1..3dfff60 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -200,6 +200,7 @@ impl EnumBuilder
                     })
                 }
                 Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::reserved => {} // We don't need to care about reserved values.
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
diff --git a/src/proto.pest b/src/proto.pest
index 626671d..421c87e 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -86,7 +86,7 @@ fieldNames = { reservedName ~ ( "," ~ reservedName )* }
 reservedName = { strLit | fieldName }
 
 enum_ = { "enum" ~ enumName ~ enumBody }
-enumBody = { "{" ~ ( option | enumField | emptyStatement )* ~ "}" }
+enumBody = { "{" ~ ( option | enumField | reserved | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
-- 
2.43.0


From 405ef76b242e6f15511235034a4a3a07cfbf4ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:06 +0000
Subject: [PATCH 23/28] fix: refuse fields listed twice in add_oneof

A oneof with the same field number twice was inserted with the number
listed twice.
---
 src/context/modify_api.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/context/modify_api.rs b/src/context/modify_api.rs
index 48b72e7..dff97a3 100644
--- a/src/context/modify_api.rs
+++ b/src/context/modify_api.rs
@@ -183,13 +183,13 @@ impl MessageInfo
             }
         }
 
-        // Ensure none of the existing fields are part of oneofs.
-        for f in &oneof.fields {
+        // Ensure none of the existing fields are part of oneofs and none is listed twice.
+        for (i, f) in oneof.fields.iter().enumerate() {
             let field = self
                 .fields
                 .get(f)
                 .ok_or(OneofInsertError::FieldNotFound { field: *f })?;
-            if field.oneof.is_some() {
+            if field.oneof.is_some() || oneof.fields[..i].contains(f) {
                 return Err(OneofInsertError::FieldInOneof { field: *f });
             }
         }
-- 
2.43.0


From 7b87b2cf56482a88019db0e199b2434c3a61a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:33 +0000
Subject: [PATCH 24/28] fix: do not prepare number errors for valid numbers

Finding the line and column of a number takes time proportional to its
position in the text, and this was done for every number before it was
clear that there is an error. Parsing large files took quadratic time.
---
 src/context/parse.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 3dfff60..9c1e481 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -88,7 +88,7 @@ impl MessageBuilder
     pub fn parse(p: Pair<Rule>, depth: usize) -> Result<Self, ParseError>
     {
         if depth > MAX_NESTING {
-            return Err(syntax_error(&p, "messages are nested too deeply"));
+            return Err(syntax_error(p.as_span(), "messages are nested too deeply"));
         }
 
         let mut inner = p.into_inner();
@@ -401,17 +401,17 @@ pub fn parse_uint_literal(p: Pair<Rule>) -> Result<u64, ParseError>
     match p.as_rule() {
         Rule::fieldNumber => parse_uint_literal(p.into_inner().next().unwrap()),
         Rule::intLit => {
-            let error = invalid_number(&p);
+            let span = p.as_span();
             let mut inner = p.into_inner();
             let lit = inner.next().unwrap();
             match lit.as_rule() {
                 Rule::decimalLit => str::parse(lit.as_str()),
                 Rule::octalLit => u64::from_str_radix(lit.as_str(), 8),
                 Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16),
-                Rule::sign => return Err(error),
+                Rule::sign => return Err(invalid_number(span)),
                 r => unreachable!("{:?}: {:?}", r, lit),
             }
-            .map_err(|_| error)
+            .map_err(|_| invalid_number(span))
         }
         r => unreachable!("{:?}: {:?}", r, p),
     }
@@ -421,7 +421,7 @@ pub fn parse_int_literal(p: Pair<Rule>) -> Result<i64, ParseError>
 {
     match p.as_rule() {
         Rule::intLit => {
-            let error = invalid_number(&p);
+            let span = p.as_span();
             let mut inner = p.into_inner();
             let sign = inner.next().unwrap();
             let (sign, lit) = match sign.as_rule() {
@@ -434,25 +434,26 @@ pub fn parse_int_literal(p: Pair<Rule>) -> Result<i64, ParseError>
                 Rule::hexLit => (&lit.as_str()[2..], 16),
                 r => unreachable!("{:?}: {:?}", r, lit),
             };
-            i64::from_str_radix(&format!("{}{}", sign, digits), radix).map_err(|_| error)
+            i64::from_str_radix(&format!("{}{}", sign, digits), radix)
+                .map_err(|_| invalid_number(span))
         }
         r => unreachable!("{:?}: {:?}", r, p),
     }
 }
 
-fn invalid_number(p: &Pair<Rule>) -> ParseError
+fn invalid_number(span: pest::Span) -> ParseError
 {
-    syntax_error(p, "number out of range")
+    syntax_error(span, "number out of range")
 }
 
-fn syntax_error(p: &Pair<Rule>, message: &str) -> ParseError
+fn syntax_error(span: pest::Span, message: &str) -> ParseError
 {
     ParseError::SyntaxError {
         source: Box::new(pest::error::Error::<Rule>::new_from_span(
             pest::error::ErrorVariant::CustomError {
                 message: message.to_string(),
             },
-            p.as_span(),
+            span,
         )),
     }
 }
-- 
2.43.0


From 21f17bb5d70c3a8c7427025da081ba9116e5151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:13 +0000
Subject: [PATCH 25/28] fix: restore the line endings of parse.rs

An earlier fix changed them by accident.
---
 src/context/parse.rs | 1680 +++++++++++++++++++++---------------------
 1 file changed, 840 insertions(+), 840 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 9c1e481..c5d18ce 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -1,840 +1,840 @@
-use bytes::{BufMut, Bytes, BytesMut};
-use pest::{
-    iterators::{Pair, Pairs},
-    Parser,
-};
-
-use super::builder::*;
-use super::*;
-
-#[derive(pest_derive::Parser)]
-#[grammar = "proto.pest"]
-struct ProtoParser;
-
-/// Maximum nesting of message definitions.
-const MAX_NESTING: usize = 100;
-
-impl Context
-{
-    /// Parses the files and creates a decoding context.
-    pub fn parse<T, S>(files: T) -> Result<Self, ParseError>
-    where
-        T: IntoIterator<Item = S>,
-        S: AsRef<str>,
-    {
-        let builder = ContextBuilder {
-            packages: files
-                .into_iter()
-                .map(|f| PackageBuilder::parse_str(f.as_ref()))
-                .collect::<Result<_, _>>()?,
-        };
-
-        builder.build()
-    }
-}
-
-impl PackageBuilder
-{
-    pub fn parse_str(input: &str) -> Result<Self, ParseError>
-    {
-        let pairs = ProtoParser::parse(Rule::proto, input)
-            .map_err(|e| Box::new(e) as Box<dyn std::error::Error + Send + Sync>)
-            .context(SyntaxError {})?;
-
-        let mut current_package = PackageBuilder::default();
-        for pair in pairs {
-            for inner in pair.into_inner() {
-                match inner.as_rule() {
-                    Rule::syntax => {}
-                    Rule::topLevelDef => current_package
-                        .types
-                        .push(ProtobufItemBuilder::parse(inner)?),
-                    Rule::import => {}
-                    Rule::package => {
-                        current_package.name = Some(parse_ident(inner.into_inner().next().unwrap()))
-                    }
-                    Rule::option => {}
-                    Rule::emptyStatement => {}
-                    Rule::EOI => {}
-                    r => unreachable!("{:?}: {:?}", r, inner),
-                }
-            }
-        }
-
-        Ok(current_package)
-    }
-}
-
-impl ProtobufItemBuilder
-{
-    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
-    {
-        let pair = p.into_inner().next().unwrap();
-        Ok(match pair.as_rule() {
-            Rule::message => ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(
-                MessageBuilder::parse(pair, 0)?,
-            )),
-            Rule::enum_ => {
-                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder::parse(pair)?))
-            }
-            Rule::service => ProtobufItemBuilder::Service(ServiceBuilder::parse(pair)?),
-            r => unreachable!("{:?}: {:?}", r, pair),
-        })
-    }
-}
-
-impl MessageBuilder
-{
-    pub fn parse(p: Pair<Rule>, depth: usize) -> Result<Self, ParseError>
-    {
-        if depth > MAX_NESTING {
-            return Err(syntax_error(p.as_span(), "messages are nested too deeply"));
-        }
-
-        let mut inner = p.into_inner();
-        let name = inner.next().unwrap().as_str().to_string();
-
-        let mut fields = vec![];
-        let mut oneofs = vec![];
-        let mut inner_types = vec![];
-        let mut options = vec![];
-        let body = inner.next().unwrap();
-        for p in body.into_inner() {
-            match p.as_rule() {
-                Rule::field => fields.push(FieldBuilder::parse(p)?),
-                Rule::enum_ => inner_types.push(InnerTypeBuilder::Enum(EnumBuilder::parse(p)?)),
-                Rule::message => inner_types.push(InnerTypeBuilder::Message(
-                    MessageBuilder::parse(p, depth + 1)?,
-                )),
-                Rule::option => options.push(ProtoOption::parse(p)?),
-                Rule::oneof => oneofs.push(OneofBuilder::parse(p)?),
-                Rule::mapField => {
-                    let (field, entry) = parse_map_field(p)?;
-                    fields.push(field);
-                    inner_types.push(InnerTypeBuilder::Message(entry));
-                }
-                Rule::reserved => {} // We don't need to care about reserved field numbers.
-                Rule::emptyStatement => {}
-                r => unreachable!("{:?}: {:?}", r, p),
-            }
-        }
-
-        Ok(MessageBuilder {
-            name,
-            fields,
-            oneofs,
-            inner_types,
-            options,
-        })
-    }
-}
-
-/// Parses a map field.
-///
-/// Map fields are syntactic sugar for a repeated field of a nested message with the key and the
-/// value. The name of the message follows the name `protoc` gives to it.
-fn parse_map_field(p: Pair<Rule>) -> Result<(FieldBuilder, MessageBuilder), ParseError>
-{
-    let mut inner = p.into_inner();
-    let key_type = parse_field_type(inner.next().unwrap());
-    let value_type = parse_field_type(inner.next().unwrap());
-    let name = inner.next().unwrap().as_str().to_string();
-    let number = parse_uint_literal(inner.next().unwrap())?;
-    let options = match inner.next() {
-        Some(p) => ProtoOption::parse_options(p.into_inner())?,
-        None => vec![],
-    };
-
-    let mut entry_name = String::new();
-    for word in name.split('_') {
-        let (first, rest) = word.split_at(word.len().min(1));
-        entry_name.push_str(&first.to_ascii_uppercase());
-        entry_name.push_str(rest);
-    }
-    entry_name.push_str("Entry");
-
-    let entry_field = |name: &str, number, field_type| FieldBuilder {
-        multiplicity: Multiplicity::Single,
-        field_type,
-        name: name.to_string(),
-        number,
-        options: vec![],
-    };
-    let entry = MessageBuilder {
-        name: entry_name.clone(),
-        fields: vec![
-            entry_field("key", 1, key_type),
-            entry_field("value", 2, value_type),
-        ],
-        ..Default::default()
-    };
-    let field = FieldBuilder {
-        multiplicity: Multiplicity::Repeated,
-        field_type: FieldTypeBuilder::Unknown(entry_name),
-        name,
-        number,
-        options,
-    };
-
-    Ok((field, entry))
-}
-
-impl EnumBuilder
-{
-    fn parse(p: Pair<Rule>) -> Result<EnumBuilder, ParseError>
-    {
-        let mut inner = p.into_inner();
-        let name = inner.next().unwrap().as_str().to_string();
-
-        let mut fields = vec![];
-        let mut options = vec![];
-        let body = inner.next().unwrap();
-        for p in body.into_inner() {
-            match p.as_rule() {
-                Rule::enumField => {
-                    let mut inner = p.into_inner();
-                    fields.push(EnumField {
-                        name: inner.next().unwrap().as_str().to_string(),
-                        value: parse_int_literal(inner.next().unwrap())?,
-                        options: ProtoOption::parse_options(inner)?,
-                    })
-                }
-                Rule::option => options.push(ProtoOption::parse(p)?),
-                Rule::reserved => {} // We don't need to care about reserved values.
-                Rule::emptyStatement => {}
-                r => unreachable!("{:?}: {:?}", r, p),
-            }
-        }
-
-        Ok(EnumBuilder {
-            name,
-            fields,
-            options,
-        })
-    }
-}
-
-impl ServiceBuilder
-{
-    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
-    {
-        let mut inner = p.into_inner();
-        let name = inner.next().unwrap();
-        let mut rpcs = vec![];
-        let mut options = vec![];
-        for p in inner {
-            match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)?),
-                Rule::rpc => rpcs.push(RpcBuilder::parse(p)?),
-                Rule::emptyStatement => {}
-                r => unreachable!("{:?}: {:?}", r, p),
-            }
-        }
-
-        Ok(ServiceBuilder {
-            name: name.as_str().to_string(),
-            rpcs,
-            options,
-        })
-    }
-}
-
-impl FieldBuilder
-{
-    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
-    {
-        let mut inner = p.into_inner();
-        let multiplicity = match inner.next().unwrap().into_inner().next() {
-            Some(t) => {
-                let multiplicity = t.into_inner().next().unwrap().as_rule();
-                match multiplicity {
-                    Rule::optional => Multiplicity::Optional,
-                    Rule::repeated => Multiplicity::Repeated,
-                    r => unreachable!("{:?}: {:?}", r, multiplicity),
-                }
-            }
-            None => Multiplicity::Single,
-        };
-        let field_type = parse_field_type(inner.next().unwrap());
-        let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap())?;
-
-        let options = match inner.next() {
-            Some(p) => ProtoOption::parse_options(p.into_inner())?,
-            None => vec![],
-        };
-
-        Ok(FieldBuilder {
-            multiplicity,
-            field_type,
-            name,
-            number,
-            options,
-        })
-    }
-
-    pub fn parse_oneof(p: Pair<Rule>) -> Result<Self, ParseError>
-    {
-        let mut inner = p.into_inner();
-        let field_type = parse_field_type(inner.next().unwrap());
-        let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap())?;
-
-        let options = match inner.next() {
-            Some(p) => ProtoOption::parse_options(p.into_inner())?,
-            None => vec![],
-        };
-
-        Ok(FieldBuilder {
-            multiplicity: Multiplicity::Single,
-            field_type,
-            name,
-            number,
-            options,
-        })
-    }
-}
-
-impl OneofBuilder
-{
-    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
-    {
-        let mut inner = p.into_inner();
-        let name = inner.next().unwrap().as_str().to_string();
-        let mut options = Vec::new();
-        let mut fields = vec![];
-        for p in inner {
-            match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)?),
-                Rule::oneofField => fields.push(FieldBuilder::parse_oneof(p)?),
-                Rule::emptyStatement => {}
-                r => unreachable!("{:?}: {:?}", r, p),
-            }
-        }
-        Ok(OneofBuilder {
-            name,
-            fields,
-            options,
-        })
-    }
-}
-
-fn parse_field_type(p: Pair<Rule>) -> FieldTypeBuilder
-{
-    FieldTypeBuilder::Builtin(match p.as_str() {
-        "double" => ValueType::Double,
-        "float" => ValueType::Float,
-        "int32" => ValueType::Int32,
-        "int64" => ValueType::Int64,
-        "uint32" => ValueType::UInt32,
-        "uint64" => ValueType::UInt64,
-        "sint32" => ValueType::SInt32,
-        "sint64" => ValueType::SInt64,
-        "fixed32" => ValueType::Fixed32,
-        "fixed64" => ValueType::Fixed64,
-        "sfixed32" => ValueType::SFixed32,
-        "sfixed64" => ValueType::SFixed64,
-        "bool" => ValueType::Bool,
-        "string" => ValueType::String,
-        "bytes" => ValueType::Bytes,
-        _ => return FieldTypeBuilder::Unknown(parse_type_name(p)),
-    })
-}
-
-fn parse_type_name(p: Pair<Rule>) -> String
-{
-    let absolute = p.as_str().starts_with('.');
-    let idents: Vec<_> = p
-        .into_inner()
-        .flatten()
-        .filter(|p| p.as_rule() == Rule::ident)
-        .map(|p| p.as_str())
-        .collect();
-    match absolute {
-        true => format!(".{}", idents.join(".")),
-        false => idents.join("."),
-    }
-}
-
-impl RpcBuilder
-{
-    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
-    {
-        let mut inner = p.into_inner();
-        let name = inner.next().unwrap();
-
-        let input = RpcArgBuilder::parse(inner.next().unwrap());
-        let output = RpcArgBuilder::parse(inner.next().unwrap());
-
-        let mut options = vec![];
-        for p in inner {
-            match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)?),
-                Rule::emptyStatement => {}
-                r => unreachable!("{:?}: {:?}", r, p),
-            }
-        }
-
-        Ok(RpcBuilder {
-            name: name.as_str().to_string(),
-            input,
-            output,
-            options,
-        })
-    }
-}
-
-impl RpcArgBuilder
-{
-    pub fn parse(p: Pair<Rule>) -> Self
-    {
-        let mut inner = p.into_inner();
-        RpcArgBuilder {
-            stream: inner.next().unwrap().into_inner().next().is_some(),
-            message: parse_type_name(inner.next().unwrap()),
-        }
-    }
-}
-
-pub fn parse_uint_literal(p: Pair<Rule>) -> Result<u64, ParseError>
-{
-    match p.as_rule() {
-        Rule::fieldNumber => parse_uint_literal(p.into_inner().next().unwrap()),
-        Rule::intLit => {
-            let span = p.as_span();
-            let mut inner = p.into_inner();
-            let lit = inner.next().unwrap();
-            match lit.as_rule() {
-                Rule::decimalLit => str::parse(lit.as_str()),
-                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8),
-                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16),
-                Rule::sign => return Err(invalid_number(span)),
-                r => unreachable!("{:?}: {:?}", r, lit),
-            }
-            .map_err(|_| invalid_number(span))
-        }
-        r => unreachable!("{:?}: {:?}", r, p),
-    }
-}
-
-pub fn parse_int_literal(p: Pair<Rule>) -> Result<i64, ParseError>
-{
-    match p.as_rule() {
-        Rule::intLit => {
-            let span = p.as_span();
-            let mut inner = p.into_inner();
-            let sign = inner.next().unwrap();
-            let (sign, lit) = match sign.as_rule() {
-                Rule::sign => (sign.as_str(), inner.next().unwrap()),
-                _ => ("", sign),
-            };
-            let (digits, radix) = match lit.as_rule() {
-                Rule::decimalLit => (lit.as_str(), 10),
-                Rule::octalLit => (lit.as_str(), 8),
-                Rule::hexLit => (&lit.as_str()[2..], 16),
-                r => unreachable!("{:?}: {:?}", r, lit),
-            };
-            i64::from_str_radix(&format!("{}{}", sign, digits), radix)
-                .map_err(|_| invalid_number(span))
-        }
-        r => unreachable!("{:?}: {:?}", r, p),
-    }
-}
-
-fn invalid_number(span: pest::Span) -> ParseError
-{
-    syntax_error(span, "number out of range")
-}
-
-fn syntax_error(span: pest::Span, message: &str) -> ParseError
-{
-    ParseError::SyntaxError {
-        source: Box::new(pest::error::Error::<Rule>::new_from_span(
-            pest::error::ErrorVariant::CustomError {
-                message: message.to_string(),
-            },
-            span,
-        )),
-    }
-}
-
-pub fn parse_float_literal(p: Pair<Rule>) -> f64
-{
-    match p.as_rule() {
-        Rule::floatLit => p
-            .into_inner()
-            .map(|part| part.as_str())
-            .collect::<String>()
-            .parse::<f64>()
-            .unwrap(),
-        r => unreachable!("{:?}: {:?}", r, p),
-    }
-}
-
-impl ProtoOption
-{
-    fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
-    {
-        let mut inner = p.into_inner();
-        Ok(Self {
-            name: parse_ident(inner.next().unwrap()),
-            value: Constant::parse(inner.next().unwrap())?,
-        })
-    }
-
-    fn parse_options(pairs: Pairs<Rule>) -> Result<Vec<Self>, ParseError>
-    {
-        pairs
-            .map(|p| match p.as_rule() {
-                Rule::fieldOption => Self::parse(p),
-                Rule::enumValueOption => Self::parse(p),
-                Rule::option => Self::parse(p),
-                r => unreachable!("{:?}: {:?}", r, p),
-            })
-            .collect()
-    }
-}
-
-impl Constant
-{
-    fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
-    {
-        let p = p.into_inner().next().unwrap();
-        Ok(match p.as_rule() {
-            Rule::fullIdent => Constant::Ident(parse_ident(p)),
-            Rule::intLit => Constant::Integer(parse_int_literal(p)?),
-            Rule::floatLit => Constant::Float(parse_float_literal(p)),
-            Rule::strLit => Constant::String(parse_string_literal(p)),
-            Rule::boolLit => Constant::Bool(p.as_str() == "true"),
-            r => unreachable!("{:?}: {:?}", r, p),
-        })
-    }
-}
-
-fn parse_ident(p: Pair<Rule>) -> String
-{
-    let mut ident = vec![];
-    let mut inner = p.into_inner();
-
-    let first = inner.next().unwrap();
-    match first.as_rule() {
-        Rule::ident => ident.push(first.as_str().to_string()),
-        Rule::fullIdent => ident.push(format!("({})", parse_ident(first))),
-        r => unreachable!("{:?}: {:?}", r, first),
-    }
-
-    for other in inner {
-        match other.as_rule() {
-            Rule::ident => ident.push(other.as_str().to_string()),
-            r => unreachable!("{:?}: {:?}", r, other),
-        }
-    }
-
-    ident.join(".")
-}
-
-fn parse_string_literal(s: Pair<Rule>) -> Bytes
-{
-    let inner = s.into_inner();
-    let mut output = BytesMut::new();
-    for c in inner {
-        let c = c.into_inner().next().unwrap();
-        match c.as_rule() {
-            Rule::hexEscape => {
-                output.put_u8(
-                    u8::from_str_radix(c.into_inner().next().unwrap().as_str(), 16).unwrap(),
-                );
-            }
-            Rule::octEscape => {
-                // Three octal digits may exceed a byte. Only the low eight bits count.
-                output.put_u8(
-                    u16::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap() as u8,
-                );
-            }
-            Rule::charEscape => match c.into_inner().next().unwrap().as_str() {
-                "a" => output.put_u8(0x07),
-                "b" => output.put_u8(0x08),
-                "f" => output.put_u8(0x0C),
-                "n" => output.put_u8(0x0A),
-                "r" => output.put_u8(0x0D),
-                "t" => output.put_u8(0x09),
-                "v" => output.put_u8(0x0B),
-                "\\" => output.put_u8(0x5C),
-                "\'" => output.put_u8(0x27),
-                "\"" => output.put_u8(0x22),
-                o => unreachable!("Invalid escape sequence \\{}", o),
-            },
-            Rule::anyChar => output.put(c.as_str().as_ref()),
-            r => unreachable!("{:?}: {:?}", r, c),
-        }
-    }
-    output.freeze()
-}
-
-#[cfg(test)]
-mod test
-{
-    use super::*;
-
-    #[test]
-    fn empty()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(
-                r#"
-                syntax = "proto3";
-            "#
-            )
-            .unwrap(),
-            PackageBuilder::default(),
-        );
-    }
-
-    #[test]
-    fn package()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(
-                r#"
-                syntax = "proto3";
-                package Test;
-            "#
-            )
-            .unwrap(),
-            PackageBuilder {
-                name: Some("Test".to_string()),
-                ..Default::default()
-            }
-        );
-    }
-
-    #[test]
-    fn bom()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(&format!(
-                "\u{FEFF}{}",
-                r#"
-                syntax = "proto3";
-                package Test;
-            "#
-            ))
-            .unwrap(),
-            PackageBuilder {
-                name: Some("Test".to_string()),
-                ..Default::default()
-            }
-        );
-    }
-
-    #[test]
-    fn message()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(
-                r#"
-                syntax = "proto3";
-
-                message MyMessage {
-                    int32 value = 1;
-                }
-            "#
-            )
-            .unwrap(),
-            PackageBuilder {
-                types: vec![ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(
-                    MessageBuilder {
-                        name: "MyMessage".to_string(),
-                        fields: vec![FieldBuilder {
-                            multiplicity: Multiplicity::Single,
-                            field_type: FieldTypeBuilder::Builtin(ValueType::Int32),
-                            name: "value".to_string(),
-                            number: 1,
-                            options: vec![],
-                        }],
-                        ..Default::default()
-                    }
-                )),],
-                ..Default::default()
-            }
-        );
-    }
-
-    #[test]
-    fn pbenum()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(
-                r#"
-                syntax = "proto3";
-
-                enum MyEnum {
-                    a = 1;
-                    b = -1;
-                }
-            "#
-            )
-            .unwrap(),
-            PackageBuilder {
-                types: vec![ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(
-                    EnumBuilder {
-                        name: "MyEnum".to_string(),
-                        fields: vec![
-                            EnumField {
-                                name: "a".to_string(),
-                                value: 1,
-                                options: vec![],
-                            },
-                            EnumField {
-                                name: "b".to_string(),
-                                value: -1,
-                                options: vec![],
-                            }
-                        ],
-                        ..Default::default()
-                    }
-                )),],
-                ..Default::default()
-            }
-        );
-    }
-
-    #[test]
-    fn service()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(
-                r#"
-                syntax = "proto3";
-
-                service MyService {
-                    rpc function( Foo ) returns ( stream Bar );
-                }
-            "#
-            )
-            .unwrap(),
-            PackageBuilder {
-                types: vec![ProtobufItemBuilder::Service(ServiceBuilder {
-                    name: "MyService".to_string(),
-                    rpcs: vec![RpcBuilder {
-                        name: "function".to_string(),
-                        input: RpcArgBuilder {
-                            stream: false,
-                            message: "Foo".to_string(),
-                        },
-                        output: RpcArgBuilder {
-                            stream: true,
-                            message: "Bar".to_string(),
-                        },
-                        ..Default::default()
-                    },],
-                    ..Default::default()
-                }),],
-                ..Default::default()
-            }
-        );
-    }
-
-    #[test]
-    fn options()
-    {
-        assert_eq!(
-            PackageBuilder::parse_str(
-                r#"
-                syntax = "proto3";
-
-                message Message {
-                    option mOption = "foo";
-                    uint32 field = 1 [ fOption = bar ];
-                }
-
-                enum Enum {
-                    value = 1 [ (a.b).c = 1, o2 = 2 ];
-                    option eOption = "banana";
-                }
-
-                service MyService {
-                    rpc function( Foo ) returns ( stream Bar ) { option o = true; }
-                    option sOption = "bar";
-                }
-            "#
-            )
-            .unwrap(),
-            PackageBuilder {
-                types: vec![
-                    ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(MessageBuilder {
-                        name: "Message".to_string(),
-                        fields: vec![FieldBuilder {
-                            multiplicity: Multiplicity::Single,
-                            field_type: FieldTypeBuilder::Builtin(ValueType::UInt32),
-                            name: "field".to_string(),
-                            number: 1,
-                            options: vec![ProtoOption {
-                                name: "fOption".to_string(),
-                                value: Constant::Ident("bar".to_string()),
-                            }],
-                        }],
-                        options: vec![ProtoOption {
-                            name: "mOption".to_string(),
-                            value: Constant::String(Bytes::from_static(b"foo")),
-                        }],
-                        ..Default::default()
-                    })),
-                    ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder {
-                        name: "Enum".to_string(),
-                        fields: vec![EnumField {
-                            name: "value".to_string(),
-                            value: 1,
-                            options: vec![
-                                ProtoOption {
-                                    name: "(a.b).c".to_string(),
-                                    value: Constant::Integer(1),
-                                },
-                                ProtoOption {
-                                    name: "o2".to_string(),
-                                    value: Constant::Integer(2),
-                                }
-                            ],
-                        }],
-                        options: vec![ProtoOption {
-                            name: "eOption".to_string(),
-                            value: Constant::String(Bytes::from_static(b"banana")),
-                        }],
-                        ..Default::default()
-                    })),
-                    ProtobufItemBuilder::Service(ServiceBuilder {
-                        name: "MyService".to_string(),
-                        rpcs: vec![RpcBuilder {
-                            name: "function".to_string(),
-                            input: RpcArgBuilder {
-                                stream: false,
-                                message: "Foo".to_string(),
-                            },
-                            output: RpcArgBuilder {
-                                stream: true,
-                                message: "Bar".to_string(),
-                            },
-                            options: vec![ProtoOption {
-                                name: "o".to_string(),
-                                value: Constant::Bool(true),
-                            }]
-                        },],
-                        options: vec![ProtoOption {
-                            name: "sOption".to_string(),
-                            value: Constant::String(Bytes::from_static(b"bar")),
-                        }]
-                    }),
-                ],
-                ..Default::default()
-            }
-        );
-    }
-
-    #[test]
-    fn parse_string_vec()
-    {
-        let _ = Context::parse(&["foo", "bar"]);
-        let _ = Context::parse(vec!["foo", "bar"]);
-        let _ = Context::parse(vec!["foo".to_string(), "bar".to_string()]);
-    }
-}
+use bytes::{BufMut, Bytes, BytesMut};
+use pest::{
+    iterators::{Pair, Pairs},
+    Parser,
+};
+
+use super::builder::*;
+use super::*;
+
+#[derive(pest_derive::Parser)]
+#[grammar = "proto.pest"]
+struct ProtoParser;
+
+/// Maximum nesting of message definitions.
+const MAX_NESTING: usize = 100;
+
+impl Context
+{
+    /// Parses the files and creates a decoding context.
+    pub fn parse<T, S>(files: T) -> Result<Self, ParseError>
+    where
+        T: IntoIterator<Item = S>,
+        S: AsRef<str>,
+    {
+        let builder = ContextBuilder {
+            packages: files
+                .into_iter()
+                .map(|f| PackageBuilder::parse_str(f.as_ref()))
+                .collect::<Result<_, _>>()?,
+        };
+
+        builder.build()
+    }
+}
+
+impl PackageBuilder
+{
+    pub fn parse_str(input: &str) -> Result<Self, ParseError>
+    {
+        let pairs = ProtoParser::parse(Rule::proto, input)
+            .map_err(|e| Box::new(e) as Box<dyn std::error::Error + Send + Sync>)
+            .context(SyntaxError {})?;
+
+        let mut current_package = PackageBuilder::default();
+        for pair in pairs {
+            for inner in pair.into_inner() {
+                match inner.as_rule() {
+                    Rule::syntax => {}
+                    Rule::topLevelDef => current_package
+                        .types
+                        .push(ProtobufItemBuilder::parse(inner)?),
+                    Rule::import => {}
+                    Rule::package => {
+                        current_package.name = Some(parse_ident(inner.into_inner().next().unwrap()))
+                    }
+                    Rule::option => {}
+                    Rule::emptyStatement => {}
+                    Rule::EOI => {}
+                    r => unreachable!("{:?}: {:?}", r, inner),
+                }
+            }
+        }
+
+        Ok(current_package)
+    }
+}
+
+impl ProtobufItemBuilder
+{
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
+    {
+        let pair = p.into_inner().next().unwrap();
+        Ok(match pair.as_rule() {
+            Rule::message => ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(
+                MessageBuilder::parse(pair, 0)?,
+            )),
+            Rule::enum_ => {
+                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder::parse(pair)?))
+            }
+            Rule::service => ProtobufItemBuilder::Service(ServiceBuilder::parse(pair)?),
+            r => unreachable!("{:?}: {:?}", r, pair),
+        })
+    }
+}
+
+impl MessageBuilder
+{
+    pub fn parse(p: Pair<Rule>, depth: usize) -> Result<Self, ParseError>
+    {
+        if depth > MAX_NESTING {
+            return Err(syntax_error(p.as_span(), "messages are nested too deeply"));
+        }
+
+        let mut inner = p.into_inner();
+        let name = inner.next().unwrap().as_str().to_string();
+
+        let mut fields = vec![];
+        let mut oneofs = vec![];
+        let mut inner_types = vec![];
+        let mut options = vec![];
+        let body = inner.next().unwrap();
+        for p in body.into_inner() {
+            match p.as_rule() {
+                Rule::field => fields.push(FieldBuilder::parse(p)?),
+                Rule::enum_ => inner_types.push(InnerTypeBuilder::Enum(EnumBuilder::parse(p)?)),
+                Rule::message => inner_types.push(InnerTypeBuilder::Message(
+                    MessageBuilder::parse(p, depth + 1)?,
+                )),
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::oneof => oneofs.push(OneofBuilder::parse(p)?),
+                Rule::mapField => {
+                    let (field, entry) = parse_map_field(p)?;
+                    fields.push(field);
+                    inner_types.push(InnerTypeBuilder::Message(entry));
+                }
+                Rule::reserved => {} // We don't need to care about reserved field numbers.
+                Rule::emptyStatement => {}
+                r => unreachable!("{:?}: {:?}", r, p),
+            }
+        }
+
+        Ok(MessageBuilder {
+            name,
+            fields,
+            oneofs,
+            inner_types,
+            options,
+        })
+    }
+}
+
+/// Parses a map field.
+///
+/// Map fields are syntactic sugar for a repeated field of a nested message with the key and the
+/// value. The name of the message follows the name `protoc` gives to it.
+fn parse_map_field(p: Pair<Rule>) -> Result<(FieldBuilder, MessageBuilder), ParseError>
+{
+    let mut inner = p.into_inner();
+    let key_type = parse_field_type(inner.next().unwrap());
+    let value_type = parse_field_type(inner.next().unwrap());
+    let name = inner.next().unwrap().as_str().to_string();
+    let number = parse_uint_literal(inner.next().unwrap())?;
+    let options = match inner.next() {
+        Some(p) => ProtoOption::parse_options(p.into_inner())?,
+        None => vec![],
+    };
+
+    let mut entry_name = String::new();
+    for word in name.split('_') {
+        let (first, rest) = word.split_at(word.len().min(1));
+        entry_name.push_str(&first.to_ascii_uppercase());
+        entry_name.push_str(rest);
+    }
+    entry_name.push_str("Entry");
+
+    let entry_field = |name: &str, number, field_type| FieldBuilder {
+        multiplicity: Multiplicity::Single,
+        field_type,
+        name: name.to_string(),
+        number,
+        options: vec![],
+    };
+    let entry = MessageBuilder {
+        name: entry_name.clone(),
+        fields: vec![
+            entry_field("key", 1, key_type),
+            entry_field("value", 2, value_type),
+        ],
+        ..Default::default()
+    };
+    let field = FieldBuilder {
+        multiplicity: Multiplicity::Repeated,
+        field_type: FieldTypeBuilder::Unknown(entry_name),
+        name,
+        number,
+        options,
+    };
+
+    Ok((field, entry))
+}
+
+impl EnumBuilder
+{
+    fn parse(p: Pair<Rule>) -> Result<EnumBuilder, ParseError>
+    {
+        let mut inner = p.into_inner();
+        let name = inner.next().unwrap().as_str().to_string();
+
+        let mut fields = vec![];
+        let mut options = vec![];
+        let body = inner.next().unwrap();
+        for p in body.into_inner() {
+            match p.as_rule() {
+                Rule::enumField => {
+                    let mut inner = p.into_inner();
+                    fields.push(EnumField {
+                        name: inner.next().unwrap().as_str().to_string(),
+                        value: parse_int_literal(inner.next().unwrap())?,
+                        options: ProtoOption::parse_options(inner)?,
+                    })
+                }
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::reserved => {} // We don't need to care about reserved values.
+                Rule::emptyStatement => {}
+                r => unreachable!("{:?}: {:?}", r, p),
+            }
+        }
+
+        Ok(EnumBuilder {
+            name,
+            fields,
+            options,
+        })
+    }
+}
+
+impl ServiceBuilder
+{
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
+    {
+        let mut inner = p.into_inner();
+        let name = inner.next().unwrap();
+        let mut rpcs = vec![];
+        let mut options = vec![];
+        for p in inner {
+            match p.as_rule() {
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::rpc => rpcs.push(RpcBuilder::parse(p)?),
+                Rule::emptyStatement => {}
+                r => unreachable!("{:?}: {:?}", r, p),
+            }
+        }
+
+        Ok(ServiceBuilder {
+            name: name.as_str().to_string(),
+            rpcs,
+            options,
+        })
+    }
+}
+
+impl FieldBuilder
+{
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
+    {
+        let mut inner = p.into_inner();
+        let multiplicity = match inner.next().unwrap().into_inner().next() {
+            Some(t) => {
+                let multiplicity = t.into_inner().next().unwrap().as_rule();
+                match multiplicity {
+                    Rule::optional => Multiplicity::Optional,
+                    Rule::repeated => Multiplicity::Repeated,
+                    r => unreachable!("{:?}: {:?}", r, multiplicity),
+                }
+            }
+            None => Multiplicity::Single,
+        };
+        let field_type = parse_field_type(inner.next().unwrap());
+        let name = inner.next().unwrap().as_str().to_string();
+        let number = parse_uint_literal(inner.next().unwrap())?;
+
+        let options = match inner.next() {
+            Some(p) => ProtoOption::parse_options(p.into_inner())?,
+            None => vec![],
+        };
+
+        Ok(FieldBuilder {
+            multiplicity,
+            field_type,
+            name,
+            number,
+            options,
+        })
+    }
+
+    pub fn parse_oneof(p: Pair<Rule>) -> Result<Self, ParseError>
+    {
+        let mut inner = p.into_inner();
+        let field_type = parse_field_type(inner.next().unwrap());
+        let name = inner.next().unwrap().as_str().to_string();
+        let number = parse_uint_literal(inner.next().unwrap())?;
+
+        let options = match inner.next() {
+            Some(p) => ProtoOption::parse_options(p.into_inner())?,
+            None => vec![],
+        };
+
+        Ok(FieldBuilder {
+            multiplicity: Multiplicity::Single,
+            field_type,
+            name,
+            number,
+            options,
+        })
+    }
+}
+
+impl OneofBuilder
+{
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
+    {
+        let mut inner = p.into_inner();
+        let name = inner.next().unwrap().as_str().to_string();
+        let mut options = Vec::new();
+        let mut fields = vec![];
+        for p in inner {
+            match p.as_rule() {
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::oneofField => fields.push(FieldBuilder::parse_oneof(p)?),
+                Rule::emptyStatement => {}
+                r => unreachable!("{:?}: {:?}", r, p),
+            }
+        }
+        Ok(OneofBuilder {
+            name,
+            fields,
+            options,
+        })
+    }
+}
+
+fn parse_field_type(p: Pair<Rule>) -> FieldTypeBuilder
+{
+    FieldTypeBuilder::Builtin(match p.as_str() {
+        "double" => ValueType::Double,
+        "float" => ValueType::Float,
+        "int32" => ValueType::Int32,
+        "int64" => ValueType::Int64,
+        "uint32" => ValueType::UInt32,
+        "uint64" => ValueType::UInt64,
+        "sint32" => ValueType::SInt32,
+        "sint64" => ValueType::SInt64,
+        "fixed32" => ValueType::Fixed32,
+        "fixed64" => ValueType::Fixed64,
+        "sfixed32" => ValueType::SFixed32,
+        "sfixed64" => ValueType::SFixed64,
+        "bool" => ValueType::Bool,
+        "string" => ValueType::String,
+        "bytes" => ValueType::Bytes,
+        _ => return FieldTypeBuilder::Unknown(parse_type_name(p)),
+    })
+}
+
+fn parse_type_name(p: Pair<Rule>) -> String
+{
+    let absolute = p.as_str().starts_with('.');
+    let idents: Vec<_> = p
+        .into_inner()
+        .flatten()
+        .filter(|p| p.as_rule() == Rule::ident)
+        .map(|p| p.as_str())
+        .collect();
+    match absolute {
+        true => format!(".{}", idents.join(".")),
+        false => idents.join("."),
+    }
+}
+
+impl RpcBuilder
+{
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
+    {
+        let mut inner = p.into_inner();
+        let name = inner.next().unwrap();
+
+        let input = RpcArgBuilder::parse(inner.next().unwrap());
+        let output = RpcArgBuilder::parse(inner.next().unwrap());
+
+        let mut options = vec![];
+        for p in inner {
+            match p.as_rule() {
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::emptyStatement => {}
+                r => unreachable!("{:?}: {:?}", r, p),
+            }
+        }
+
+        Ok(RpcBuilder {
+            name: name.as_str().to_string(),
+            input,
+            output,
+            options,
+        })
+    }
+}
+
+impl RpcArgBuilder
+{
+    pub fn parse(p: Pair<Rule>) -> Self
+    {
+        let mut inner = p.into_inner();
+        RpcArgBuilder {
+            stream: inner.next().unwrap().into_inner().next().is_some(),
+            message: parse_type_name(inner.next().unwrap()),
+        }
+    }
+}
+
+pub fn parse_uint_literal(p: Pair<Rule>) -> Result<u64, ParseError>
+{
+    match p.as_rule() {
+        Rule::fieldNumber => parse_uint_literal(p.into_inner().next().unwrap()),
+        Rule::intLit => {
+            let span = p.as_span();
+            let mut inner = p.into_inner();
+            let lit = inner.next().unwrap();
+            match lit.as_rule() {
+                Rule::decimalLit => str::parse(lit.as_str()),
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8),
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16),
+                Rule::sign => return Err(invalid_number(span)),
+                r => unreachable!("{:?}: {:?}", r, lit),
+            }
+            .map_err(|_| invalid_number(span))
+        }
+        r => unreachable!("{:?}: {:?}", r, p),
+    }
+}
+
+pub fn parse_int_literal(p: Pair<Rule>) -> Result<i64, ParseError>
+{
+    match p.as_rule() {
+        Rule::intLit => {
+            let span = p.as_span();
+            let mut inner = p.into_inner();
+            let sign = inner.next().unwrap();
+            let (sign, lit) = match sign.as_rule() {
+                Rule::sign => (sign.as_str(), inner.next().unwrap()),
+                _ => ("", sign),
+            };
+            let (digits, radix) = match lit.as_rule() {
+                Rule::decimalLit => (lit.as_str(), 10),
+                Rule::octalLit => (lit.as_str(), 8),
+                Rule::hexLit => (&lit.as_str()[2..], 16),
+                r => unreachable!("{:?}: {:?}", r, lit),
+            };
+            i64::from_str_radix(&format!("{}{}", sign, digits), radix)
+                .map_err(|_| invalid_number(span))
+        }
+        r => unreachable!("{:?}: {:?}", r, p),
+    }
+}
+
+fn invalid_number(span: pest::Span) -> ParseError
+{
+    syntax_error(span, "number out of range")
+}
+
+fn syntax_error(span: pest::Span, message: &str) -> ParseError
+{
+    ParseError::SyntaxError {
+        source: Box::new(pest::error::Error::<Rule>::new_from_span(
+            pest::error::ErrorVariant::CustomError {
+                message: message.to_string(),
+            },
+            span,
+        )),
+    }
+}
+
+pub fn parse_float_literal(p: Pair<Rule>) -> f64
+{
+    match p.as_rule() {
+        Rule::floatLit => p
+            .into_inner()
+            .map(|part| part.as_str())
+            .collect::<String>()
+            .parse::<f64>()
+            .unwrap(),
+        r => unreachable!("{:?}: {:?}", r, p),
+    }
+}
+
+impl ProtoOption
+{
+    fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
+    {
+        let mut inner = p.into_inner();
+        Ok(Self {
+            name: parse_ident(inner.next().unwrap()),
+            value: Constant::parse(inner.next().unwrap())?,
+        })
+    }
+
+    fn parse_options(pairs: Pairs<Rule>) -> Result<Vec<Self>, ParseError>
+    {
+        pairs
+            .map(|p| match p.as_rule() {
+                Rule::fieldOption => Self::parse(p),
+                Rule::enumValueOption => Self::parse(p),
+                Rule::option => Self::parse(p),
+                r => unreachable!("{:?}: {:?}", r, p),
+            })
+            .collect()
+    }
+}
+
+impl Constant
+{
+    fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
+    {
+        let p = p.into_inner().next().unwrap();
+        Ok(match p.as_rule() {
+            Rule::fullIdent => Constant::Ident(parse_ident(p)),
+            Rule::intLit => Constant::Integer(parse_int_literal(p)?),
+            Rule::floatLit => Constant::Float(parse_float_literal(p)),
+            Rule::strLit => Constant::String(parse_string_literal(p)),
+            Rule::boolLit => Constant::Bool(p.as_str() == "true"),
+            r => unreachable!("{:?}: {:?}", r, p),
+        })
+    }
+}
+
+fn parse_ident(p: Pair<Rule>) -> String
+{
+    let mut ident = vec![];
+    let mut inner = p.into_inner();
+
+    let first = inner.next().unwrap();
+    match first.as_rule() {
+        Rule::ident => ident.push(first.as_str().to_string()),
+        Rule::fullIdent => ident.push(format!("({})", parse_ident(first))),
+        r => unreachable!("{:?}: {:?}", r, first),
+    }
+
+    for other in inner {
+        match other.as_rule() {
+            Rule::ident => ident.push(other.as_str().to_string()),
+            r => unreachable!("{:?}: {:?}", r, other),
+        }
+    }
+
+    ident.join(".")
+}
+
+fn parse_string_literal(s: Pair<Rule>) -> Bytes
+{
+    let inner = s.into_inner();
+    let mut output = BytesMut::new();
+    for c in inner {
+        let c = c.into_inner().next().unwrap();
+        match c.as_rule() {
+            Rule::hexEscape => {
+                output.put_u8(
+                    u8::from_str_radix(c.into_inner().next().unwrap().as_str(), 16).unwrap(),
+                );
+            }
+            Rule::octEscape => {
+                // Three octal digits may exceed a byte. Only the low eight bits count.
+                output.put_u8(
+                    u16::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap() as u8,
+                );
+            }
+            Rule::charEscape => match c.into_inner().next().unwrap().as_str() {
+                "a" => output.put_u8(0x07),
+                "b" => output.put_u8(0x08),
+                "f" => output.put_u8(0x0C),
+                "n" => output.put_u8(0x0A),
+                "r" => output.put_u8(0x0D),
+                "t" => output.put_u8(0x09),
+                "v" => output.put_u8(0x0B),
+                "\\" => output.put_u8(0x5C),
+                "\'" => output.put_u8(0x27),
+                "\"" => output.put_u8(0x22),
+                o => unreachable!("Invalid escape sequence \\{}", o),
+            },
+            Rule::anyChar => output.put(c.as_str().as_ref()),
+            r => unreachable!("{:?}: {:?}", r, c),
+        }
+    }
+    output.freeze()
+}
+
+#[cfg(test)]
+mod test
+{
+    use super::*;
+
+    #[test]
+    fn empty()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(
+                r#"
+                syntax = "proto3";
+            "#
+            )
+            .unwrap(),
+            PackageBuilder::default(),
+        );
+    }
+
+    #[test]
+    fn package()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(
+                r#"
+                syntax = "proto3";
+                package Test;
+            "#
+            )
+            .unwrap(),
+            PackageBuilder {
+                name: Some("Test".to_string()),
+                ..Default::default()
+            }
+        );
+    }
+
+    #[test]
+    fn bom()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(&format!(
+                "\u{FEFF}{}",
+                r#"
+                syntax = "proto3";
+                package Test;
+            "#
+            ))
+            .unwrap(),
+            PackageBuilder {
+                name: Some("Test".to_string()),
+                ..Default::default()
+            }
+        );
+    }
+
+    #[test]
+    fn message()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(
+                r#"
+                syntax = "proto3";
+
+                message MyMessage {
+                    int32 value = 1;
+                }
+            "#
+            )
+            .unwrap(),
+            PackageBuilder {
+                types: vec![ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(
+                    MessageBuilder {
+                        name: "MyMessage".to_string(),
+                        fields: vec![FieldBuilder {
+                            multiplicity: Multiplicity::Single,
+                            field_type: FieldTypeBuilder::Builtin(ValueType::Int32),
+                            name: "value".to_string(),
+                            number: 1,
+                            options: vec![],
+                        }],
+                        ..Default::default()
+                    }
+                )),],
+                ..Default::default()
+            }
+        );
+    }
+
+    #[test]
+    fn pbenum()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(
+                r#"
+                syntax = "proto3";
+
+                enum MyEnum {
+                    a = 1;
+                    b = -1;
+                }
+            "#
+            )
+            .unwrap(),
+            PackageBuilder {
+                types: vec![ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(
+                    EnumBuilder {
+                        name: "MyEnum".to_string(),
+                        fields: vec![
+                            EnumField {
+                                name: "a".to_string(),
+                                value: 1,
+                                options: vec![],
+                            },
+                            EnumField {
+                                name: "b".to_string(),
+                                value: -1,
+                                options: vec![],
+                            }
+                        ],
+                        ..Default::default()
+                    }
+                )),],
+                ..Default::default()
+            }
+        );
+    }
+
+    #[test]
+    fn service()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(
+                r#"
+                syntax = "proto3";
+
+                service MyService {
+                    rpc function( Foo ) returns ( stream Bar );
+                }
+            "#
+            )
+            .unwrap(),
+            PackageBuilder {
+                types: vec![ProtobufItemBuilder::Service(ServiceBuilder {
+                    name: "MyService".to_string(),
+                    rpcs: vec![RpcBuilder {
+                        name: "function".to_string(),
+                        input: RpcArgBuilder {
+                            stream: false,
+                            message: "Foo".to_string(),
+                        },
+                        output: RpcArgBuilder {
+                            stream: true,
+                            message: "Bar".to_string(),
+                        },
+                        ..Default::default()
+                    },],
+                    ..Default::default()
+                }),],
+                ..Default::default()
+            }
+        );
+    }
+
+    #[test]
+    fn options()
+    {
+        assert_eq!(
+            PackageBuilder::parse_str(
+                r#"
+                syntax = "proto3";
+
+                message Message {
+                    option mOption = "foo";
+                    uint32 field = 1 [ fOption = bar ];
+                }
+
+                enum Enum {
+                    value = 1 [ (a.b).c = 1, o2 = 2 ];
+                    option eOption = "banana";
+                }
+
+                service MyService {
+                    rpc function( Foo ) returns ( stream Bar ) { option o = true; }
+                    option sOption = "bar";
+                }
+            "#
+            )
+            .unwrap(),
+            PackageBuilder {
+                types: vec![
+                    ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(MessageBuilder {
+                        name: "Message".to_string(),
+                        fields: vec![FieldBuilder {
+                            multiplicity: Multiplicity::Single,
+                            field_type: FieldTypeBuilder::Builtin(ValueType::UInt32),
+                            name: "field".to_string(),
+                            number: 1,
+                            options: vec![ProtoOption {
+                                name: "fOption".to_string(),
+                                value: Constant::Ident("bar".to_string()),
+                            }],
+                        }],
+                        options: vec![ProtoOption {
+                            name: "mOption".to_string(),
+                            value: Constant::String(Bytes::from_static(b"foo")),
+                        }],
+                        ..Default::default()
+                    })),
+                    ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder {
+                        name: "Enum".to_string(),
+                        fields: vec![EnumField {
+                            name: "value".to_string(),
+                            value: 1,
+                            options: vec![
+                                ProtoOption {
+                                    name: "(a.b).c".to_string(),
+                                    value: Constant::Integer(1),
+                                },
+                                ProtoOption {
+                                    name: "o2".to_string(),
+                                    value: Constant::Integer(2),
+                                }
+                            ],
+                        }],
+                        options: vec![ProtoOption {
+                            name: "eOption".to_string(),
+                            value: Constant::String(Bytes::from_static(b"banana")),
+                        }],
+                        ..Default::default()
+                    })),
+                    ProtobufItemBuilder::Service(ServiceBuilder {
+                        name: "MyService".to_string(),
+                        rpcs: vec![RpcBuilder {
+                            name: "function".to_string(),
+                            input: RpcArgBuilder {
+                                stream: false,
+                                message: "Foo".to_string(),
+                            },
+                            output: RpcArgBuilder {
+                                stream: true,
+                                message: "Bar".to_string(),
+                            },
+                            options: vec![ProtoOption {
+                                name: "o".to_string(),
+                                value: Constant::Bool(true),
+                            }]
+                        },],
+                        options: vec![ProtoOption {
+                            name: "sOption".to_string(),
+                            value: Constant::String(Bytes::from_static(b"bar")),
+                        }]
+                    }),
+                ],
+                ..Default::default()
+            }
+        );
+    }
+
+    #[test]
+    fn parse_string_vec()
+    {
+        let _ = Context::parse(&["foo", "bar"]);
+        let _ = Context::parse(vec!["foo", "bar"]);
+        let _ = Context::parse(vec!["foo".to_string(), "bar".to_string()]);
+    }
+}
-- 
2.43.0


From 2c9c8220ca118872ab756931b6692ede6b794a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 26/28] fix: keywords that are glued to the next word are
 syntax errors

---
 src/proto.pest | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 421c87e..8881c68 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -8,6 +8,8 @@ octalDigit = { '0'..'7' }
 hexDigit = { '0'..'9' | 'A'..'F' | 'a'..'f' }
 
 wordEnd = _{ !( letter | decimalDigit | "_" ) }
+keyword = @{ ( "import" | "weak" | "public" | "package" | "message" | "enum" | "service" | "rpc"
+    | "oneof" | "reserved" | "to" | "max" ) ~ wordEnd }
 ident = @{ letter ~ ( letter | decimalDigit | "_" )* }
 fullIdent = { ident ~ ( "." ~ ident )* }
 messageName = { ident }
@@ -50,8 +52,8 @@ emptyStatement = { ";" }
 constant = { floatLit | intLit | strLit | boolLit | fullIdent }
 
 syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
-import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-package = { "package" ~ fullIdent ~ ";" }
+import = { &keyword ~ "import" ~ ( &keyword ~ ( "weak" | "public" ) )? ~ strLit ~ ";" }
+package = { &keyword ~ "package" ~ fullIdent ~ ";" }
 
 option = { optionKeyword ~ optionName ~ "=" ~ constant ~ ";" }
 optionWord = @{ "option" ~ wordEnd }
@@ -72,32 +74,32 @@ field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOp
 fieldOptions = { fieldOption ~ ( "," ~ fieldOption )* }
 fieldOption = { optionName ~ "=" ~ constant }
 
-oneof = { "oneof" ~ oneofName ~ "{" ~ ( option | oneofField | emptyStatement )* ~ "}" }
+oneof = { &keyword ~ "oneof" ~ oneofName ~ "{" ~ ( option | oneofField | emptyStatement )* ~ "}" }
 oneofField = { type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
 
 mapField = { "map" ~ "<" ~ keyType ~ "," ~ type_ ~ ">" ~ mapName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
 keyType = { "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
           "fixed32" | "fixed64" | "sfixed32" | "sfixed64" | "bool" | "string" }
 
-reserved = { "reserved" ~ ( ranges | fieldNames ) ~ ";" }
+reserved = { &keyword ~ "reserved" ~ ( ranges | fieldNames ) ~ ";" }
 ranges = { range ~ ( "," ~ range )* }
-range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
+range = { intLit ~ ( &keyword ~ "to" ~ ( intLit | &keyword ~ "max" ) )? }
 fieldNames = { reservedName ~ ( "," ~ reservedName )* }
 reservedName = { strLit | fieldName }
 
-enum_ = { "enum" ~ enumName ~ enumBody }
+enum_ = { &keyword ~ "enum" ~ enumName ~ enumBody }
 enumBody = { "{" ~ ( option | enumField | reserved | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
-message = { "message" ~ messageName ~ messageBody }
+message = { &keyword ~ "message" ~ messageName ~ messageBody }
 messageBody = { "{" ~ ( option | field | enum_ | message | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
-service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
+service = { &keyword ~ "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
 stream = @{ "stream" ~ wordEnd }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
-rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
+rpc = { &keyword ~ "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
 
 proto = { SOI ~ BOM? ~ syntax ~ ( import | package | option | topLevelDef | emptyStatement )* ~ EOI }
 topLevelDef = { message | enum_ | service }
-- 
2.43.0


From e44cc89ee2dc021fef6ccd84887909598ff83632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 27/28] fix: a second list of options after an enum value is a
 syntax error

---
 src/proto.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto.pest b/src/proto.pest
index 8881c68..7263fad 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -89,7 +89,7 @@ reservedName = { strLit | fieldName }
 
 enum_ = { &keyword ~ "enum" ~ enumName ~ enumBody }
 enumBody = { "{" ~ ( option | enumField | reserved | emptyStatement )* ~ "}" }
-enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
+enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )? ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
 message = { &keyword ~ "message" ~ messageName ~ messageBody }
-- 
2.43.0


From c50c40bfb8e664bcdc1fc58f3b9431977f636498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 28/28] fix: the quotes of the syntax statement have to match

---
 src/proto.pest | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 7263fad..8470dc3 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -45,13 +45,12 @@ octByte = ${ octalDigit ~ octalDigit? ~ octalDigit? }
 charEscape = ${ "\\" ~ escapeChar }
 escapeChar = { "a" | "b" | "f" | "n" | "r" | "t" | "v" | "\\" | "'" | "\"" }
 anyChar = ${ ANY }
-quote = { "'" | "\"" }
 
 emptyStatement = { ";" }
 
 constant = { floatLit | intLit | strLit | boolLit | fullIdent }
 
-syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
+syntax = { "syntax" ~ "=" ~ ( "\"proto3\"" | "'proto3'" ) ~ ";" }
 import = { &keyword ~ "import" ~ ( &keyword ~ ( "weak" | "public" ) )? ~ strLit ~ ";" }
 package = { &keyword ~ "package" ~ fullIdent ~ ";" }
 
-- 
2.43.0

