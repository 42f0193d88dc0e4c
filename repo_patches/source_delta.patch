From 764fa03eedfdf98e143b33bd5f1428914451b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 01/21] fix: restore extension lists by extension index when
 rolling back a failed addition

---
 prost-reflect/src/descriptor/build/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ea94ca0..ae26778 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -95,7 +95,9 @@ impl DescriptorPoolOffsets {
         });
         pool.file_names.retain(|_, &mut file| file < self.file);
         for message in &mut pool.messages {
-            message.extensions.retain(|&message| message < self.message);
+            message
+                .extensions
+                .retain(|&extension| extension < self.extension);
         }
     }
 }
-- 
2.43.0


From d06ef68e3023455e5914dac1408391abcb710d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 02/21] fix: report an unknown syntax as an error instead of
 panicking

---
 prost-reflect/src/descriptor/build/names.rs | 32 +++++++++++----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/names.rs b/prost-reflect/src/descriptor/build/names.rs
index 2332a36..26f81a5 100644
--- a/prost-reflect/src/descriptor/build/names.rs
+++ b/prost-reflect/src/descriptor/build/names.rs
@@ -51,21 +51,10 @@ impl Visitor for NameVisitor<'_> {
     fn visit_file(&mut self, path: &[i32], index: FileIndex, file: &FileDescriptorProto) {
         debug_assert_eq!(to_index(self.pool.files.len()), index);
 
-        let syntax = match file.syntax.as_deref() {
-            None | Some("proto2") => Syntax::Proto2,
-            Some("proto3") => Syntax::Proto3,
-            Some(syntax) => {
-                self.errors.push(DescriptorErrorKind::UnknownSyntax {
-                    syntax: syntax.to_owned(),
-                    found: Label::new(
-                        &self.pool.files,
-                        "found here",
-                        index,
-                        join_path(path, &[tag::file::SYNTAX]),
-                    ),
-                });
-                return;
-            }
+        let (syntax, unknown_syntax) = match file.syntax.as_deref() {
+            None | Some("proto2") => (Syntax::Proto2, None),
+            Some("proto3") => (Syntax::Proto3, None),
+            Some(syntax) => (Syntax::Proto2, Some(syntax)),
         };
 
         if self
@@ -86,6 +75,19 @@ impl Visitor for NameVisitor<'_> {
             transitive_dependencies: HashSet::default(),
         });
 
+        // The file must be registered first, labels refer to it by index
+        if let Some(syntax) = unknown_syntax {
+            self.errors.push(DescriptorErrorKind::UnknownSyntax {
+                syntax: syntax.to_owned(),
+                found: Label::new(
+                    &self.pool.files,
+                    "found here",
+                    index,
+                    join_path(path, &[tag::file::SYNTAX]),
+                ),
+            });
+        }
+
         if !file.package().is_empty() {
             for (i, _) in file.package().match_indices('.') {
                 self.add_name(
-- 
2.43.0


From 39ca6f054598e388bc9716d4ccfbccee43643d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 03/21] fix: reject out of range octal and non-ASCII hex
 escapes in bytes defaults

---
 prost-reflect/src/descriptor/build/resolve.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 5a80342..fa8fb04 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -855,23 +855,26 @@ fn unescape_c_escape_string(s: &str) -> Result<Bytes, &'static str> {
                     p += 1;
                 }
                 b'0'..=b'7' => {
-                    let mut octal = 0;
+                    let mut octal: u32 = 0;
                     for _ in 0..3 {
                         if p < len && src[p] >= b'0' && src[p] <= b'7' {
-                            octal = octal * 8 + (src[p] - b'0');
+                            octal = octal * 8 + u32::from(src[p] - b'0');
                             p += 1;
                         } else {
                             break;
                         }
                     }
-                    dst.push(octal);
+                    match u8::try_from(octal) {
+                        Ok(b) => dst.push(b),
+                        Err(_) => return Err("octal escape out of range"),
+                    }
                 }
                 b'x' | b'X' => {
                     if p + 3 > len {
                         return Err("hex escape must contain two characters");
                     }
-                    match u8::from_str_radix(&s[p + 1..p + 3], 16) {
-                        Ok(b) => dst.push(b),
+                    match s.get(p + 1..p + 3).map(|hex| u8::from_str_radix(hex, 16)) {
+                        Some(Ok(b)) => dst.push(b),
                         _ => return Err("invalid hex escape"),
                     }
                     p += 3;
-- 
2.43.0


From ea4f2b5c4004d23c595de86b448709df5cd0ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 04/21] fix: follow public imports transitively, and only once
 per file

---
 prost-reflect/src/descriptor/build/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index fa8fb04..281b32f 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -421,7 +421,7 @@ impl ResolveVisitor<'_> {
         for (i, dependency) in file.raw.dependency.iter().enumerate() {
             if let Some(&dependency_index) = self.pool.file_names.get(dependency.as_str()) {
                 if file.raw.public_dependency.contains(&(i as i32))
-                    && !dependencies.insert(dependency_index)
+                    && dependencies.insert(dependency_index)
                 {
                     self.resolve_public_dependencies(dependencies, dependency_index);
                 }
-- 
2.43.0


From 55a53e9f7d00ecde2e84a0fcff74b855aa9893f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 05/21] fix: serialize non-finite FloatValue and DoubleValue as
 strings instead of null

---
 prost-reflect/src/dynamic/serde/ser/mod.rs | 58 +++++++++++++---------
 prost-reflect/src/dynamic/serde/ser/wkt.rs |  4 +-
 2 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/ser/mod.rs b/prost-reflect/src/dynamic/serde/ser/mod.rs
index 7da55a2..728b6eb 100644
--- a/prost-reflect/src/dynamic/serde/ser/mod.rs
+++ b/prost-reflect/src/dynamic/serde/ser/mod.rs
@@ -117,30 +117,8 @@ impl<'a> Serialize for SerializeWrapper<'a, ValueAndKind<'a>> {
                     serializer.serialize_u64(*value)
                 }
             }
-            Value::F32(value) => {
-                if value.is_finite() {
-                    serializer.serialize_f32(*value)
-                } else if *value == f32::INFINITY {
-                    serializer.serialize_str("Infinity")
-                } else if *value == f32::NEG_INFINITY {
-                    serializer.serialize_str("-Infinity")
-                } else {
-                    debug_assert!(value.is_nan());
-                    serializer.serialize_str("NaN")
-                }
-            }
-            Value::F64(value) => {
-                if value.is_finite() {
-                    serializer.serialize_f64(*value)
-                } else if *value == f64::INFINITY {
-                    serializer.serialize_str("Infinity")
-                } else if *value == f64::NEG_INFINITY {
-                    serializer.serialize_str("-Infinity")
-                } else {
-                    debug_assert!(value.is_nan());
-                    serializer.serialize_str("NaN")
-                }
-            }
+            Value::F32(value) => serialize_f32(*value, serializer),
+            Value::F64(value) => serialize_f64(*value, serializer),
             Value::String(value) => serializer.serialize_str(value),
             Value::Bytes(value) => {
                 serializer.collect_str(&Base64Display::new(value, &BASE64_STANDARD))
@@ -226,3 +204,35 @@ impl Serialize for SerializeWrapper<'_, MapKey> {
         }
     }
 }
+
+fn serialize_f32<S>(value: f32, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if value.is_finite() {
+        serializer.serialize_f32(value)
+    } else if value == f32::INFINITY {
+        serializer.serialize_str("Infinity")
+    } else if value == f32::NEG_INFINITY {
+        serializer.serialize_str("-Infinity")
+    } else {
+        debug_assert!(value.is_nan());
+        serializer.serialize_str("NaN")
+    }
+}
+
+fn serialize_f64<S>(value: f64, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if value.is_finite() {
+        serializer.serialize_f64(value)
+    } else if value == f64::INFINITY {
+        serializer.serialize_str("Infinity")
+    } else if value == f64::NEG_INFINITY {
+        serializer.serialize_str("-Infinity")
+    } else {
+        debug_assert!(value.is_nan());
+        serializer.serialize_str("NaN")
+    }
+}
diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index 423ef26..f5cff83 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -131,7 +131,7 @@ where
 {
     let raw: f32 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f32(raw)
+    super::serialize_f32(raw, serializer)
 }
 
 fn serialize_double<S>(
@@ -144,7 +144,7 @@ where
 {
     let raw: f64 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f64(raw)
+    super::serialize_f64(raw, serializer)
 }
 
 fn serialize_int32<S>(
-- 
2.43.0


From 8e37798094a214a2c8d8d9338689b92be73782ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 06/21] fix: reject JSON numbers 2^63 and 2^64 instead of
 saturating 64-bit integers

---
 prost-reflect/src/dynamic/serde/de/kind.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 4fc2fb5..de9c5f4 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -399,7 +399,7 @@ impl Visitor<'_> for Int64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (i64::MIN as f64) || v > (i64::MAX as f64) {
+        if v < (i64::MIN as f64) || v >= (i64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
@@ -446,7 +446,7 @@ impl Visitor<'_> for Uint64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (u64::MIN as f64) || v > (u64::MAX as f64) {
+        if v < (u64::MIN as f64) || v >= (u64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
-- 
2.43.0


From 7673381e38e7ebbdc570133dead90bf125805907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 07/21] fix: do not treat a single value as valid for a
 repeated or map field

---
 prost-reflect/src/dynamic/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 57a9262..2364ca4 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -648,6 +648,7 @@ impl Value {
                     key.is_valid(&key_desc) && value.is_valid_for_field(&value_desc)
                 })
             }
+            (_, _) if field_desc.is_list() || field_desc.is_map() => false,
             (value, kind) => value.is_valid(&kind),
         }
     }
@@ -667,6 +668,7 @@ impl Value {
                     key.is_valid(&key_desc) && value.is_valid_for_field(&value_desc)
                 })
             }
+            (_, _) if extension_desc.is_list() || extension_desc.is_map() => false,
             (value, kind) => value.is_valid(&kind),
         }
     }
-- 
2.43.0


From 96c6a0cf3fe905c07edfadc6c57709e6abb8ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 08/21] fix: only expand an Any in text format if its type URL
 can be parsed back

---
 prost-reflect/src/dynamic/text_format/format.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/format.rs b/prost-reflect/src/dynamic/text_format/format.rs
index 0f168f9..80fcb50 100644
--- a/prost-reflect/src/dynamic/text_format/format.rs
+++ b/prost-reflect/src/dynamic/text_format/format.rs
@@ -304,6 +304,12 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     let any = message.transcode_to::<prost_types::Any>().ok()?;
     let message_name = get_type_url_message_name(&any.type_url).ok()?;
 
+    // The text format only allows a dotted identifier before the message name
+    let domain = any.type_url.strip_suffix(message_name)?.strip_suffix('/')?;
+    if !domain.split('.').all(is_ident) {
+        return None;
+    }
+
     let desc = message
         .desc
         .parent_pool()
@@ -312,6 +318,11 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     Some((any.type_url, body))
 }
 
+fn is_ident(s: &str) -> bool {
+    s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
+        && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_')
+}
+
 #[cfg(test)]
 #[cfg(feature = "text-format")]
 mod tests {
-- 
2.43.0


From 40261272021f1159e8721efe89ae1427cd3a6926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 09/21] fix: reject map entries without usable key and value
 fields

---
 prost-reflect/src/descriptor/build/mod.rs | 71 ++++++++++++++++++++++-
 1 file changed, 69 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ae26778..3f62582 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -17,9 +17,10 @@ use crate::{
         to_index,
         types::FileDescriptorProto,
         Definition, DefinitionKind, DescriptorPoolInner, EnumIndex, ExtensionIndex,
-        FileDescriptorInner, FileIndex, MessageIndex, ServiceIndex,
+        FileDescriptorInner, FileIndex, MessageIndex, ServiceIndex, MAP_ENTRY_KEY_NUMBER,
+        MAP_ENTRY_VALUE_NUMBER,
     },
-    DescriptorError, DescriptorPool,
+    Cardinality, DescriptorError, DescriptorPool, FieldDescriptor, FileDescriptor, Kind,
 };
 
 #[derive(Clone, Copy)]
@@ -138,8 +139,13 @@ impl DescriptorPool {
 
         inner.resolve_names(offsets, deduped_files)?;
 
+        self.check_map_entries(offsets)?;
+
         self.resolve_options(offsets, deduped_files)?;
 
+        // Checked again since resolving options may mark further messages as map entries
+        self.check_map_entries(offsets)?;
+
         debug_assert_eq!(Arc::strong_count(&self.inner), 1);
         let inner = Arc::get_mut(&mut self.inner).unwrap();
         for file in &mut inner.files[offsets.file as usize..] {
@@ -148,6 +154,67 @@ impl DescriptorPool {
 
         Ok(())
     }
+
+    fn check_map_entries(&self, offsets: DescriptorPoolOffsets) -> Result<(), DescriptorError> {
+        fn is_valid_map_entry(kind: Kind) -> bool {
+            let Kind::Message(entry) = kind else {
+                return false;
+            };
+            let (Some(key), Some(value)) = (
+                entry.get_field(MAP_ENTRY_KEY_NUMBER),
+                entry.get_field(MAP_ENTRY_VALUE_NUMBER),
+            ) else {
+                return false;
+            };
+            key.cardinality() != Cardinality::Repeated
+                && value.cardinality() != Cardinality::Repeated
+                && !matches!(
+                    key.kind(),
+                    Kind::Double | Kind::Float | Kind::Bytes | Kind::Message(_) | Kind::Enum(_)
+                )
+        }
+
+        let mut errors = vec![];
+        let mut check = |kind: Kind, name: &str, file: FileDescriptor, path: &[i32]| {
+            if !is_valid_map_entry(kind) {
+                let label =
+                    |text: &str| Label::new(&self.inner.files, text, file.index, path.into());
+                errors.push(DescriptorErrorKind::InvalidType {
+                    name: name.to_owned(),
+                    expected: "a valid map field".to_owned(),
+                    found: label("found here"),
+                    defined: label("defined here"),
+                });
+            }
+        };
+
+        for message in self.all_messages().skip(offsets.message as usize) {
+            for field in message.fields().filter(FieldDescriptor::is_map) {
+                check(
+                    field.kind(),
+                    field.full_name(),
+                    field.parent_file(),
+                    field.path(),
+                );
+            }
+        }
+        for extension in self.all_extensions().skip(offsets.extension as usize) {
+            if extension.is_map() {
+                check(
+                    extension.kind(),
+                    extension.full_name(),
+                    extension.parent_file(),
+                    extension.path(),
+                );
+            }
+        }
+
+        if errors.is_empty() {
+            Ok(())
+        } else {
+            Err(DescriptorError::new(errors))
+        }
+    }
 }
 
 impl ResolveNameFilter {
-- 
2.43.0


From f56eafce193ee600c3f9e91a4b85b828022e591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 10/21] fix: limit the nesting of messages when parsing the
 text format

---
 prost-reflect/src/dynamic/text_format/parse/error.rs |  7 +++++++
 prost-reflect/src/dynamic/text_format/parse/mod.rs   | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/parse/error.rs b/prost-reflect/src/dynamic/text_format/parse/error.rs
index dfc909c..4db4dc6 100644
--- a/prost-reflect/src/dynamic/text_format/parse/error.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/error.rs
@@ -112,6 +112,10 @@ pub(crate) enum ParseErrorKind {
         span: Span,
     },
     InvalidMapKey,
+    RecursionLimitReached {
+        #[cfg_attr(feature = "miette", label("nested too deeply here"))]
+        span: Span,
+    },
 }
 
 impl Display for ParseErrorKind {
@@ -179,6 +183,9 @@ impl Display for ParseErrorKind {
                 "the field type must be 'google.protobuf.Any' to use Any expansion syntax"
             ),
             ParseErrorKind::InvalidMapKey => write!(f, "invalid value type for map key"),
+            ParseErrorKind::RecursionLimitReached { .. } => {
+                write!(f, "the recursion limit was reached")
+            }
         }
     }
 }
diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index c15153e..16e7f66 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -21,8 +21,12 @@ use crate::{
 pub(in crate::dynamic::text_format) struct Parser<'a> {
     lexer: Lexer<'a, Token<'a>>,
     peek: Option<Result<(Token<'a>, Span), ParseErrorKind>>,
+    depth: u32,
 }
 
+/// The maximum nesting of messages, the same limit is used when decoding the binary format.
+const RECURSION_LIMIT: u32 = 100;
+
 enum FieldName {
     Ident(String),
     Extension(String),
@@ -34,6 +38,7 @@ impl<'a> Parser<'a> {
         Parser {
             lexer: Token::lexer(input),
             peek: None,
+            depth: 0,
         }
     }
 
@@ -54,11 +59,17 @@ impl<'a> Parser<'a> {
             _ => self.unexpected_token("'{' or '<'")?,
         };
 
+        if self.depth == RECURSION_LIMIT {
+            return Err(ParseErrorKind::RecursionLimitReached { span: start });
+        }
+        self.depth += 1;
+
         loop {
             match self.peek()? {
                 Some((Token::Ident(_) | Token::LeftBracket, _)) => self.parse_field(message)?,
                 Some((tok, _)) if tok == terminator => {
                     let end = self.bump();
+                    self.depth -= 1;
                     return Ok(join_span(start, end));
                 }
                 _ => self.unexpected_token(format!("'{terminator}' or a field name"))?,
-- 
2.43.0


From e8bb16d09b3b58f35588dd9ae1fc1a225e0f0501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 11/21] fix: limit the nesting of payloads expanded when
 writing the text format

---
 prost-reflect/src/dynamic/text_format/format.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/format.rs b/prost-reflect/src/dynamic/text_format/format.rs
index 80fcb50..eba5c77 100644
--- a/prost-reflect/src/dynamic/text_format/format.rs
+++ b/prost-reflect/src/dynamic/text_format/format.rs
@@ -16,8 +16,12 @@ pub(in crate::dynamic) struct Writer<'a, W> {
     options: FormatOptions,
     f: &'a mut W,
     indent_level: u32,
+    expand_depth: u32,
 }
 
+/// The maximum nesting of encoded payloads that are decoded while writing the text format.
+const EXPAND_LIMIT: u32 = 100;
+
 impl<'a, W> Writer<'a, W>
 where
     W: Write,
@@ -27,16 +31,19 @@ where
             options,
             f,
             indent_level: 0,
+            expand_depth: 0,
         }
     }
 
     pub fn fmt_message(&mut self, message: &DynamicMessage) -> fmt::Result {
-        if self.options.expand_any {
+        if self.options.expand_any && self.expand_depth < EXPAND_LIMIT {
             if let Some((type_url, body)) = as_any(message) {
                 self.f.write_char('[')?;
                 self.f.write_str(&type_url)?;
                 self.f.write_str("]")?;
+                self.expand_depth += 1;
                 self.fmt_field_value(&Value::Message(body), None)?;
+                self.expand_depth -= 1;
                 return Ok(());
             }
         }
@@ -203,10 +210,13 @@ where
                 write!(self.f, "0x{:016x}", u64::from_le_bytes(*bytes))
             }
             UnknownFieldValue::LengthDelimited(bytes) => {
-                if !bytes.is_empty() {
+                if !bytes.is_empty() && self.expand_depth < EXPAND_LIMIT {
                     if let Ok(set) = UnknownFieldSet::decode(bytes.clone()) {
                         self.fmt_padding()?;
-                        return self.fmt_unknown_field_set(&set);
+                        self.expand_depth += 1;
+                        self.fmt_unknown_field_set(&set)?;
+                        self.expand_depth -= 1;
+                        return Ok(());
                     }
                 }
 
-- 
2.43.0


From d911554f8cae234aba2b3b4131632487c8450877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 12/21] fix: refuse field mask paths with a trailing underscore
 when writing JSON

---
 prost-reflect/src/dynamic/serde/case.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/case.rs b/prost-reflect/src/dynamic/serde/case.rs
index 03bb7f0..c97147b 100644
--- a/prost-reflect/src/dynamic/serde/case.rs
+++ b/prost-reflect/src/dynamic/serde/case.rs
@@ -22,6 +22,10 @@ pub(crate) fn snake_case_to_camel_case(dst: &mut String, src: &str) -> Result<()
         }
     }
 
+    if ucase_next {
+        return Err(());
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From a392fba6d30714227558014a2b8757773dc18245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 13/21] fix: refuse JSON timestamps and durations with
 nanoseconds out of range or of the other sign

---
 prost-reflect/src/dynamic/serde/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/dynamic/serde/mod.rs b/prost-reflect/src/dynamic/serde/mod.rs
index 8139977..6bad56c 100644
--- a/prost-reflect/src/dynamic/serde/mod.rs
+++ b/prost-reflect/src/dynamic/serde/mod.rs
@@ -261,6 +261,7 @@ const MAX_DURATION_NANOS: u32 = 999_999_999;
 
 const MIN_TIMESTAMP_SECONDS: i64 = -62135596800;
 const MAX_TIMESTAMP_SECONDS: i64 = 253402300799;
+const MAX_TIMESTAMP_NANOS: i32 = 999_999_999;
 
 fn is_well_known_type(full_name: &str) -> bool {
     matches!(
@@ -288,6 +289,8 @@ fn is_well_known_type(full_name: &str) -> bool {
 fn check_duration(duration: &prost_types::Duration) -> Result<(), &'static str> {
     if duration.seconds.unsigned_abs() > MAX_DURATION_SECONDS
         || duration.nanos.unsigned_abs() > MAX_DURATION_NANOS
+        || (duration.seconds < 0 && duration.nanos > 0)
+        || (duration.seconds > 0 && duration.nanos < 0)
     {
         Err("duration out of range")
     } else {
@@ -296,7 +299,11 @@ fn check_duration(duration: &prost_types::Duration) -> Result<(), &'static str>
 }
 
 fn check_timestamp(timestamp: &prost_types::Timestamp) -> Result<(), &'static str> {
-    if timestamp.seconds < MIN_TIMESTAMP_SECONDS || MAX_TIMESTAMP_SECONDS < timestamp.seconds {
+    if timestamp.seconds < MIN_TIMESTAMP_SECONDS
+        || MAX_TIMESTAMP_SECONDS < timestamp.seconds
+        || timestamp.nanos < 0
+        || MAX_TIMESTAMP_NANOS < timestamp.nanos
+    {
         Err("timestamp out of range")
     } else {
         Ok(())
-- 
2.43.0


From fff1fa8053aed453ef702bbc7a6118f203dac2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 14/21] fix: repeated scalar fields with unrelated options are
 packed by default in proto3

---
 prost-reflect/src/descriptor/build/resolve.rs | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 281b32f..8514cc1 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -5,7 +5,9 @@ use prost::bytes::Bytes;
 use crate::{
     descriptor::{
         build::{
-            join_path, resolve_name, to_json_name,
+            join_path,
+            options::option_to_bool,
+            resolve_name, to_json_name,
             visit::{visit, Visitor},
             DescriptorPoolOffsets, ResolveNameFilter,
         },
@@ -120,10 +122,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let is_packed = cardinality == Cardinality::Repeated
             && kind.is_some_and(|k| k.is_packable())
-            && (field
-                .options
-                .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+            && is_packed_by_option(field).unwrap_or(syntax == Syntax::Proto3);
 
         let supports_presence = field.proto3_optional()
             || field.oneof_index.is_some()
@@ -391,10 +390,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let is_packed = cardinality == Cardinality::Repeated
             && kind.is_some_and(|k| k.is_packable())
-            && (extension
-                .options
-                .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+            && is_packed_by_option(extension).unwrap_or(syntax == Syntax::Proto3);
 
         let default = kind.and_then(|kind| {
             self.parse_field_default_value(kind, extension.default_value.as_deref(), file, path)
@@ -766,6 +762,20 @@ impl ResolveVisitor<'_> {
     }
 }
 
+/// Returns the explicit value of the `packed` option of a field, which may be uninterpreted.
+fn is_packed_by_option(field: &FieldDescriptorProto) -> Option<bool> {
+    let options = &field.options.as_ref()?.value;
+    options.packed.or_else(|| {
+        options
+            .uninterpreted_option
+            .iter()
+            .find(|u| {
+                u.name.len() == 1 && u.name[0].name_part == "packed" && !u.name[0].is_extension
+            })
+            .and_then(|u| option_to_bool(u).ok())
+    })
+}
+
 fn parse_simple_value(
     kind: KindIndex,
     value: &str,
-- 
2.43.0


From f9d661b9dc47855409d9f25376b04ecff177fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 15/21] fix: report options that conflict with the official
 options messages instead of panicking

---
 prost-reflect/src/descriptor/build/options.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 6aa38c9..cd15f5b 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -305,7 +305,10 @@ impl OptionsVisitor<'_> {
         scope: &str,
         file: FileIndex,
         path: &[i32],
-    ) -> Vec<u8> {
+    ) -> Vec<u8>
+    where
+        T: Message + Default,
+    {
         let desc = self.pool.get_message_by_name(desc_name).unwrap_or_else(|| {
             DescriptorPool::global()
                 .get_message_by_name(desc_name)
@@ -335,7 +338,13 @@ impl OptionsVisitor<'_> {
 
         message.clear_field_by_number(tag::UNINTERPRETED_OPTION as u32);
 
-        message.encode_to_vec()
+        let encoded = message.encode_to_vec();
+        // The pool may contain its own, conflicting definition of the options message
+        if let Err(err) = Options::<T>::decode(encoded.as_slice()) {
+            self.errors
+                .push(DescriptorErrorKind::DecodeFileDescriptorSet { err });
+        }
+        encoded
     }
 
     #[allow(clippy::result_large_err)]
-- 
2.43.0


From 67bf1d197e29e007191f7269f180bfed402374d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 16/21] fix: decode options without a descriptor.proto against
 the built-in pool, not the growing global pool

---
 prost-reflect/src/descriptor/api.rs           |  6 ++++--
 prost-reflect/src/descriptor/build/options.rs | 10 +++++-----
 prost-reflect/src/descriptor/global.rs        |  8 +++++++-
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/prost-reflect/src/descriptor/api.rs b/prost-reflect/src/descriptor/api.rs
index bb82718..c1156b4 100644
--- a/prost-reflect/src/descriptor/api.rs
+++ b/prost-reflect/src/descriptor/api.rs
@@ -20,7 +20,9 @@ use prost_types::{
 use crate::{
     descriptor::{
         error::DescriptorErrorKind,
-        find_enum_proto, find_message_proto, tag, to_index,
+        find_enum_proto, find_message_proto,
+        global::well_known,
+        tag, to_index,
         types::{self, Options},
         Definition, DefinitionKind, DescriptorIndex, EnumDescriptorInner, EnumValueDescriptorInner,
         ExtensionDescriptorInner, FieldDescriptorInner, FileDescriptorInner, KindIndex,
@@ -1956,7 +1958,7 @@ fn decode_options<T>(
 ) -> DynamicMessage {
     let message_desc = pool
         .get_message_by_name(name)
-        .unwrap_or_else(|| DescriptorPool::global().get_message_by_name(name).unwrap());
+        .unwrap_or_else(|| well_known().get_message_by_name(name).unwrap());
 
     let bytes = option
         .as_ref()
diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index cd15f5b..85ea0ac 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -10,6 +10,7 @@ use crate::{
             DescriptorPoolOffsets, ResolveNameFilter,
         },
         error::{DescriptorErrorKind, Label},
+        global::well_known,
         tag,
         types::{
             uninterpreted_option, DescriptorProto, EnumDescriptorProto, EnumValueDescriptorProto,
@@ -309,11 +310,10 @@ impl OptionsVisitor<'_> {
     where
         T: Message + Default,
     {
-        let desc = self.pool.get_message_by_name(desc_name).unwrap_or_else(|| {
-            DescriptorPool::global()
-                .get_message_by_name(desc_name)
-                .unwrap()
-        });
+        let desc = self
+            .pool
+            .get_message_by_name(desc_name)
+            .unwrap_or_else(|| well_known().get_message_by_name(desc_name).unwrap());
 
         let mut message = match DynamicMessage::decode(desc, options.encoded.as_slice()) {
             Ok(message) => message,
diff --git a/prost-reflect/src/descriptor/global.rs b/prost-reflect/src/descriptor/global.rs
index 0d09136..759f331 100644
--- a/prost-reflect/src/descriptor/global.rs
+++ b/prost-reflect/src/descriptor/global.rs
@@ -5,11 +5,17 @@ use prost_types::FileDescriptorProto;
 
 use crate::{DescriptorError, DescriptorPool};
 
+static WELL_KNOWN: OnceLock<DescriptorPool> = OnceLock::new();
 static INSTANCE: OnceLock<Mutex<DescriptorPool>> = OnceLock::new();
 
+/// The pool of google well-known types, which unlike the global pool is never added to.
+pub(super) fn well_known() -> &'static DescriptorPool {
+    WELL_KNOWN.get_or_init(|| crate::reflect::make_wkt_descriptor_pool().unwrap())
+}
+
 fn instance() -> MutexGuard<'static, DescriptorPool> {
     INSTANCE
-        .get_or_init(|| Mutex::new(crate::reflect::make_wkt_descriptor_pool().unwrap()))
+        .get_or_init(|| Mutex::new(well_known().clone()))
         .lock()
         .unwrap()
 }
-- 
2.43.0


From e5a131d33b21337845aea22bf7daa68fdee39fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 17/21] fix: options made undecodable by a later extension no
 longer panic when read

---
 prost-reflect/src/descriptor/api.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/prost-reflect/src/descriptor/api.rs b/prost-reflect/src/descriptor/api.rs
index c1156b4..95eecde 100644
--- a/prost-reflect/src/descriptor/api.rs
+++ b/prost-reflect/src/descriptor/api.rs
@@ -1956,15 +1956,22 @@ fn decode_options<T>(
     name: &str,
     option: &Option<Options<T>>,
 ) -> DynamicMessage {
-    let message_desc = pool
-        .get_message_by_name(name)
-        .unwrap_or_else(|| well_known().get_message_by_name(name).unwrap());
-
     let bytes = option
         .as_ref()
         .map(|o| o.encoded.as_slice())
         .unwrap_or_default();
-    DynamicMessage::decode(message_desc, bytes).unwrap()
+
+    // The bytes were checked when the file was added, but an extension added to the pool since
+    // then may give another type to what was an unknown field.
+    if let Some(message_desc) = pool.get_message_by_name(name) {
+        if let Ok(message) = DynamicMessage::decode(message_desc, bytes) {
+            return message;
+        }
+    }
+
+    let message_desc = well_known().get_message_by_name(name).unwrap();
+    DynamicMessage::decode(message_desc.clone(), bytes)
+        .unwrap_or_else(|_| DynamicMessage::new(message_desc))
 }
 
 fn find_message_proto_prost<'a>(
-- 
2.43.0


From 2315f0db92ebf11782cf3b69f9fdf5cfeab0630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 18/21] fix: reject text format input that sets an expanded Any
 twice

An expanded Any silently replaced the type_url and value set before it
in the same message, whether by another expanded Any or field by field.
---
 prost-reflect/src/dynamic/text_format/parse/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index 16e7f66..c6a60a3 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -125,6 +125,17 @@ impl<'a> Parser<'a> {
                 let mut value = DynamicMessage::new(value_message);
                 self.parse_message_value(&mut value)?;
 
+                if message.desc.full_name() == "google.protobuf.Any" {
+                    for (number, field_name) in [(1, "type_url"), (2, "value")] {
+                        if message.has_field_by_number(number) {
+                            return Err(ParseErrorKind::FieldAlreadySet {
+                                field_name: field_name.to_owned(),
+                                span,
+                            });
+                        }
+                    }
+                }
+
                 let type_url = format!("{domain}/{message_name}");
                 let value = value.encode_to_vec();
 
-- 
2.43.0


From 441fcaf1667f342c9e3fcbd67f0ff35cd8b19c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 19/21] fix: follow chains of public imports without recursion

---
 prost-reflect/src/descriptor/build/resolve.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 8514cc1..9d53270 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -412,14 +412,18 @@ impl Visitor for ResolveVisitor<'_> {
 
 impl ResolveVisitor<'_> {
     fn resolve_public_dependencies(&self, dependencies: &mut HashSet<FileIndex>, index: FileIndex) {
-        let file = &self.pool.files[index as usize];
+        let mut pending = vec![index];
 
-        for (i, dependency) in file.raw.dependency.iter().enumerate() {
-            if let Some(&dependency_index) = self.pool.file_names.get(dependency.as_str()) {
-                if file.raw.public_dependency.contains(&(i as i32))
-                    && dependencies.insert(dependency_index)
-                {
-                    self.resolve_public_dependencies(dependencies, dependency_index);
+        while let Some(index) = pending.pop() {
+            let file = &self.pool.files[index as usize];
+
+            for (i, dependency) in file.raw.dependency.iter().enumerate() {
+                if let Some(&dependency_index) = self.pool.file_names.get(dependency.as_str()) {
+                    if file.raw.public_dependency.contains(&(i as i32))
+                        && dependencies.insert(dependency_index)
+                    {
+                        pending.push(dependency_index);
+                    }
                 }
             }
         }
-- 
2.43.0


From 5f736674e89547032c2002b67045827bbbeb4230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 20/21] fix: refuse option names nested too deeply to be
 decoded

---
 prost-reflect/src/descriptor/build/options.rs |  9 +++++++++
 prost-reflect/src/descriptor/error.rs         | 14 ++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 85ea0ac..b633385 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -26,6 +26,9 @@ use crate::{
     ExtensionDescriptor, MapKey, MessageDescriptor, ReflectMessage, Value,
 };
 
+/// The most parts an option name can have, such that the option can still be decoded.
+const NESTED_OPTION_LIMIT: usize = 101;
+
 impl DescriptorPool {
     pub(super) fn resolve_options(
         &mut self,
@@ -359,6 +362,12 @@ impl OptionsVisitor<'_> {
         let mut resolved_path = Vec::with_capacity(path.len() - 2 + option.name.len());
         resolved_path.extend_from_slice(&path[..path.len() - 2]);
 
+        if option.name.len() > NESTED_OPTION_LIMIT {
+            return Err(DescriptorErrorKind::OptionNestedTooDeep {
+                found: Label::new(&self.pool.inner.files, "found here", file, path),
+            });
+        }
+
         for (i, part) in option.name.iter().enumerate() {
             let is_last = i == option.name.len() - 1;
 
diff --git a/prost-reflect/src/descriptor/error.rs b/prost-reflect/src/descriptor/error.rs
index 540ce2d..85b5a15 100644
--- a/prost-reflect/src/descriptor/error.rs
+++ b/prost-reflect/src/descriptor/error.rs
@@ -149,6 +149,9 @@ pub(super) enum DescriptorErrorKind {
         name: String,
         found: Label,
     },
+    OptionNestedTooDeep {
+        found: Label,
+    },
     DecodeFileDescriptorSet {
         err: prost::DecodeError,
     },
@@ -336,6 +339,7 @@ impl DescriptorErrorKind {
             #[cfg(feature = "text-format")]
             DescriptorErrorKind::InvalidMessageOption { found, .. } => Some(found),
             DescriptorErrorKind::DuplicateOption { found, .. } => Some(found),
+            DescriptorErrorKind::OptionNestedTooDeep { found } => Some(found),
             DescriptorErrorKind::DecodeFileDescriptorSet { .. } => None,
         }
     }
@@ -428,6 +432,9 @@ impl DescriptorErrorKind {
             DescriptorErrorKind::DuplicateOption { found, .. } => {
                 found.resolve_span(file, source);
             }
+            DescriptorErrorKind::OptionNestedTooDeep { found } => {
+                found.resolve_span(file, source);
+            }
             DescriptorErrorKind::DecodeFileDescriptorSet { .. } => {}
         }
     }
@@ -602,6 +609,9 @@ impl fmt::Display for DescriptorErrorKind {
             DescriptorErrorKind::DuplicateOption { name, .. } => {
                 write!(f, "option field '{name}' has already been set")
             }
+            DescriptorErrorKind::OptionNestedTooDeep { .. } => {
+                write!(f, "option field is nested too deeply")
+            }
             DescriptorErrorKind::DecodeFileDescriptorSet { .. } => {
                 write!(f, "failed to decode file descriptor set")
             }
@@ -665,6 +675,7 @@ impl miette::Diagnostic for DescriptorErrorKind {
             #[cfg(feature = "text-format")]
             DescriptorErrorKind::InvalidMessageOption { .. } => None,
             DescriptorErrorKind::DuplicateOption { .. } => None,
+            DescriptorErrorKind::OptionNestedTooDeep { .. } => None,
             DescriptorErrorKind::DecodeFileDescriptorSet { .. } => None,
             DescriptorErrorKind::ExtensionNumberOutOfRange { .. } => None,
         }
@@ -754,6 +765,9 @@ impl miette::Diagnostic for DescriptorErrorKind {
             DescriptorErrorKind::DuplicateOption { found, .. } => {
                 spans.extend(found.to_span());
             }
+            DescriptorErrorKind::OptionNestedTooDeep { found } => {
+                spans.extend(found.to_span());
+            }
             DescriptorErrorKind::DecodeFileDescriptorSet { .. } => {}
         }
         if spans.is_empty() {
-- 
2.43.0


From 9cd6b350d040ef305b695b5033d86930854f3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 21/21] fix: bound the nesting of Any payloads expanded while
 serializing to JSON

---
 prost-reflect/src/dynamic/serde/mod.rs     |  3 +++
 prost-reflect/src/dynamic/serde/ser/wkt.rs | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/mod.rs b/prost-reflect/src/dynamic/serde/mod.rs
index 6bad56c..efff458 100644
--- a/prost-reflect/src/dynamic/serde/mod.rs
+++ b/prost-reflect/src/dynamic/serde/mod.rs
@@ -19,6 +19,8 @@ pub struct SerializeOptions {
     use_enum_numbers: bool,
     use_proto_field_name: bool,
     skip_default_fields: bool,
+    /// How many `google.protobuf.Any` payloads have been expanded around the message.
+    expand_depth: u32,
 }
 
 /// Options to control deserialization of messages.
@@ -204,6 +206,7 @@ impl SerializeOptions {
             use_enum_numbers: false,
             use_proto_field_name: false,
             skip_default_fields: true,
+            expand_depth: 0,
         }
     }
 
diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index f5cff83..32bf6f8 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -49,6 +49,9 @@ where
     }
 }
 
+/// The maximum nesting of `google.protobuf.Any` payloads that are decoded while serializing.
+const EXPAND_LIMIT: u32 = 100;
+
 fn serialize_any<S>(
     msg: &DynamicMessage,
     serializer: S,
@@ -57,6 +60,14 @@ fn serialize_any<S>(
 where
     S: Serializer,
 {
+    if options.expand_depth == EXPAND_LIMIT {
+        return Err(Error::custom("the recursion limit was reached"));
+    }
+    let options = &SerializeOptions {
+        expand_depth: options.expand_depth + 1,
+        ..options.clone()
+    };
+
     let raw: prost_types::Any = msg.transcode_to().map_err(decode_to_ser_err)?;
 
     let message_name = get_type_url_message_name(&raw.type_url).map_err(Error::custom)?;
-- 
2.43.0

