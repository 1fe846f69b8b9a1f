From b3344134a99c71902f7ded9d6cff5101741c9436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:26 +0000
Subject: [PATCH 01/60] fix: percent-encode '&' and '=' inside url-encoded keys
 and values

---
 crates/core/src/urlencode/ser.rs | 35 +++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 1b1e697..e8dada1 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -5,7 +5,7 @@ use crate::urlencode::error::{Error, Result};
 
 const TOP_LEVEL: usize = 1;
 const UNRESERVED: &AsciiSet =
-    &NON_ALPHANUMERIC.remove(b'&').remove(b'=').remove(b'.').remove(b'_').remove(b'-').remove(b'~');
+    &NON_ALPHANUMERIC.remove(b'.').remove(b'_').remove(b'-').remove(b'~');
 
 /// Serializes a value to a url-encoded string.
 ///
@@ -48,10 +48,19 @@ where
     let mut serializer = Serializer {
         output: String::new(),
         level: 0,
+        separators: vec![],
     };
     value.serialize(&mut serializer)?;
 
-    let encoded = utf8_percent_encode(&serializer.output, UNRESERVED).to_string();
+    // only separators added by the serializer are left unencoded
+    let mut encoded = String::new();
+    let mut start = 0;
+    for end in serializer.separators {
+        encoded.extend(utf8_percent_encode(&serializer.output[start..end], UNRESERVED));
+        encoded += &serializer.output[end..=end];
+        start = end + 1;
+    }
+    encoded.extend(utf8_percent_encode(&serializer.output[start..], UNRESERVED));
     Ok(encoded)
 }
 
@@ -67,6 +76,16 @@ where
 pub struct Serializer {
     output: String,
     level: usize,
+
+    // positions of top-level '&' and '=' separators in `output`
+    separators: Vec<usize>,
+}
+
+impl Serializer {
+    fn separator(&mut self, c: char) {
+        self.separators.push(self.output.len());
+        self.output.push(c);
+    }
 }
 
 impl ser::Serializer for &mut Serializer {
@@ -221,7 +240,7 @@ impl ser::Serializer for &mut Serializer {
             self.output += "}";
         } else {
             variant.serialize(&mut *self)?;
-            self.output += "=";
+            self.separator('=');
             value.serialize(&mut *self)?;
         }
 
@@ -266,7 +285,8 @@ impl ser::Serializer for &mut Serializer {
             self.output += ":[";
         } else {
             variant.serialize(&mut *self)?;
-            self.output += "=[";
+            self.separator('=');
+            self.output += "[";
         }
 
         Ok(self)
@@ -301,7 +321,8 @@ impl ser::Serializer for &mut Serializer {
             self.output += ":{";
         } else {
             variant.serialize(&mut *self)?;
-            self.output += "={";
+            self.separator('=');
+            self.output += "{";
         }
         Ok(self)
     }
@@ -469,14 +490,14 @@ impl ser::SerializeStruct for &mut Serializer {
                 self.output += ",";
             }
         } else if !self.output.is_empty() {
-            self.output += "&";
+            self.separator('&');
         }
 
         key.serialize(&mut **self)?;
         if self.level > TOP_LEVEL {
             self.output += ":";
         } else {
-            self.output += "=";
+            self.separator('=');
         }
         value.serialize(&mut **self)
     }
-- 
2.43.0


From f01c4f1c1a878ee00d30890c834a696b35badb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:42 +0000
Subject: [PATCH 02/60] fix: JSON-escape strings nested in url-encoded values

---
 crates/core/src/urlencode/ser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index e8dada1..c71fb06 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -156,9 +156,8 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_str(self, v: &str) -> Result<()> {
         if self.level > TOP_LEVEL {
-            self.output += "\"";
-            self.output += v;
-            self.output += "\"";
+            // nested values are JSON
+            self.output += &serde_json::to_string(v).map_err(ser::Error::custom)?;
         } else {
             self.output += v;
         }
-- 
2.43.0


From cf3af9e5c14e16a86fa1e35d37b28e067106f174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:42 +0000
Subject: [PATCH 03/60] fix: url-encode parameters that follow a tuple as
 parameters

---
 crates/core/src/urlencode/ser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index c71fb06..4d2a67f 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -260,7 +260,6 @@ impl ser::Serializer for &mut Serializer {
 
     // Tuples look just like sequences in JSON.
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple> {
-        self.level += 1;
         self.serialize_seq(Some(len))
     }
 
-- 
2.43.0


From e3dda062282eee85208e2e1d70a194504c4c062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:43 +0000
Subject: [PATCH 04/60] fix: url-encode top-level maps as parameters

---
 crates/core/src/urlencode/ser.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 4d2a67f..6248fae 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -454,8 +454,12 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        if !self.output.ends_with('{') {
-            self.output += ",";
+        if self.level > TOP_LEVEL {
+            if !self.output.ends_with('{') {
+                self.output += ",";
+            }
+        } else if !self.output.is_empty() {
+            self.separator('&');
         }
         key.serialize(&mut **self)
     }
@@ -464,12 +468,18 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        self.output += ":";
+        if self.level > TOP_LEVEL {
+            self.output += ":";
+        } else {
+            self.separator('=');
+        }
         value.serialize(&mut **self)
     }
 
     fn end(self) -> Result<()> {
-        self.output += "}";
+        if self.level > TOP_LEVEL {
+            self.output += "}";
+        }
         self.level -= 1;
         Ok(())
     }
-- 
2.43.0


From d66cea92a7125a58c63cea0c70315e95c35d6f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:28 +0000
Subject: [PATCH 05/60] fix: url-decode keys and values separately so any text
 survives a round trip

---
 crates/core/src/urlencode.rs | 109 ++++++++++++++++++++++++++++++-----
 1 file changed, 96 insertions(+), 13 deletions(-)

diff --git a/crates/core/src/urlencode.rs b/crates/core/src/urlencode.rs
index d77732d..72290cf 100644
--- a/crates/core/src/urlencode.rs
+++ b/crates/core/src/urlencode.rs
@@ -5,7 +5,9 @@ mod ser;
 
 use percent_encoding::percent_decode_str;
 pub use ser::{to_string, Serializer};
-use serde::de::DeserializeOwned;
+use serde::de::value::MapDeserializer;
+use serde::de::{self, DeserializeOwned, Deserializer, IntoDeserializer, Visitor};
+use serde_json::Value;
 
 use crate::urlencode::error::{Error, Result};
 
@@ -48,18 +50,99 @@ pub fn from_str<T>(s: &str) -> Result<T>
 where
     T: DeserializeOwned,
 {
-    // HACK: deserializing with `serde_json` makes decoding trivial and takes ~60µs
-    let decoded = percent_decode_str(s).decode_utf8_lossy();
-    let decoded = format!("{{\"{decoded}\"}}");
-    let decoded = decoded
-        .replace('=', "\":\"")
-        .replace('&', "\",\"")
-        .replace("\"[", "[")
-        .replace("]\"", "]")
-        .replace("\"{", "{")
-        .replace("}\"", "}");
-
-    serde_json::from_str(&decoded).map_err(|e| Error::Message(e.to_string()))
+    let params = s.split('&').filter(|pair| !pair.is_empty()).map(|pair| {
+        let (key, value) = pair.split_once('=').unwrap_or((pair, ""));
+        (decode(key), Param(decode(value)))
+    });
+    T::deserialize(MapDeserializer::new(params))
+}
+
+fn decode(s: &str) -> String {
+    percent_decode_str(s).decode_utf8_lossy().into_owned()
+}
+
+/// A decoded parameter value: text or, for structured types, JSON.
+struct Param(String);
+
+impl<'de> IntoDeserializer<'de, Error> for Param {
+    type Deserializer = Self;
+
+    fn into_deserializer(self) -> Self {
+        self
+    }
+}
+
+/// Deserialize as JSON, falling back to text for unit enum variants and the
+/// like.
+fn json(value: String) -> Value {
+    if value.starts_with(['{', '[']) {
+        serde_json::from_str(&value).unwrap_or(Value::String(value))
+    } else {
+        Value::String(value)
+    }
+}
+
+macro_rules! parse {
+    ($($method:ident => $visit:ident),* $(,)?) => {$(
+        fn $method<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+            visitor.$visit(self.0.parse().map_err(de::Error::custom)?)
+        }
+    )*};
+}
+
+macro_rules! delegate {
+    ($($method:ident($($arg:ident: $ty:ty),*)),* $(,)?) => {$(
+        fn $method<V: Visitor<'de>>(self, $($arg: $ty,)* visitor: V) -> Result<V::Value> {
+            json(self.0).$method($($arg,)* visitor).map_err(de::Error::custom)
+        }
+    )*};
+}
+
+impl<'de> Deserializer<'de> for Param {
+    type Error = Error;
+
+    parse! {
+        deserialize_bool => visit_bool,
+        deserialize_i8 => visit_i8,
+        deserialize_i16 => visit_i16,
+        deserialize_i32 => visit_i32,
+        deserialize_i64 => visit_i64,
+        deserialize_u8 => visit_u8,
+        deserialize_u16 => visit_u16,
+        deserialize_u32 => visit_u32,
+        deserialize_u64 => visit_u64,
+        deserialize_f32 => visit_f32,
+        deserialize_f64 => visit_f64,
+        deserialize_char => visit_char,
+        deserialize_str => visit_string,
+        deserialize_string => visit_string,
+        deserialize_identifier => visit_string,
+    }
+
+    delegate! {
+        deserialize_any(),
+        deserialize_bytes(),
+        deserialize_byte_buf(),
+        deserialize_unit(),
+        deserialize_unit_struct(name: &'static str),
+        deserialize_seq(),
+        deserialize_tuple(len: usize),
+        deserialize_tuple_struct(name: &'static str, len: usize),
+        deserialize_map(),
+        deserialize_struct(name: &'static str, fields: &'static [&'static str]),
+        deserialize_enum(name: &'static str, variants: &'static [&'static str]),
+        deserialize_ignored_any(),
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self, _name: &'static str, visitor: V,
+    ) -> Result<V::Value> {
+        visitor.visit_newtype_struct(self)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From c1004038d326116a86af79c5268384bdaf8dac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:29 +0000
Subject: [PATCH 06/60] fix: compare string and boolean credential values with
 const filters by value

---
 crates/dif-exch/src/matcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 887443a..4c65444 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -109,9 +109,9 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
 
     match vc_node {
         Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),
-        Value::String(str_node) => Ok(str_node == &const_val.to_string()),
+        Value::String(str_node) => Ok(str_node == const_str),
         Value::Number(num_node) => Ok(num_node.to_string() == const_val),
-        Value::Bool(bool_node) => Ok(Some(*bool_node) == const_val.as_bool()),
+        Value::Bool(bool_node) => Ok(bool_node.to_string() == const_val),
         Value::Null => Ok(true),
         Value::Object(_) => {
             unimplemented!("object matching not implemented")
-- 
2.43.0


From 55fa80737a594b92cd63594ed7193fb19905e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:30 +0000
Subject: [PATCH 07/60] fix: null and object values do not match const filters

---
 crates/dif-exch/src/matcher.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 4c65444..059cc2c 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -112,10 +112,7 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         Value::String(str_node) => Ok(str_node == const_str),
         Value::Number(num_node) => Ok(num_node.to_string() == const_val),
         Value::Bool(bool_node) => Ok(bool_node.to_string() == const_val),
-        Value::Null => Ok(true),
-        Value::Object(_) => {
-            unimplemented!("object matching not implemented")
-        }
+        Value::Null | Value::Object(_) => Ok(false),
     }
 }
 
-- 
2.43.0


From 151474dc2a4bea07131d8cdaaccc78c1dedfb231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:32 +0000
Subject: [PATCH 08/60] fix: match patterns against the text of credential
 values, not their JSON form

---
 crates/dif-exch/src/matcher.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 059cc2c..82c5369 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -125,7 +125,15 @@ fn match_pattern(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         return Err(anyhow!("invalid regex pattern: {pattern}"));
     };
 
-    Ok(re.captures(&vc_node.to_string()).is_some())
+    let matches = |node: &Value| match node {
+        Value::String(str_node) => re.is_match(str_node),
+        _ => re.is_match(&node.to_string()),
+    };
+
+    match vc_node {
+        Value::Array(arr_node) => Ok(arr_node.iter().any(matches)),
+        _ => Ok(matches(vc_node)),
+    }
 }
 
 // Check whether JSONPath result format matches that specified by `FilterValue`.
-- 
2.43.0


From b8c29a5bcd89d2b2cd86541baafa154912a24aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:33 +0000
Subject: [PATCH 09/60] fix: report unsupported formats as errors instead of
 panicking

---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 82c5369..aca862a 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -151,7 +151,7 @@ fn match_format(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
             Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),
             _ => Ok(false),
         },
-        _ => unimplemented!("format matching not implemented for {format}"),
+        _ => Err(anyhow!("format matching not implemented for {format}")),
     }
 }
 
-- 
2.43.0


From 33fe63d0020384b0fd16a3d05ea7acd4d069ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:07 +0000
Subject: [PATCH 10/60] fix: separate the entries of arrays generated by
 request macros

---
 crates/macros/src/authorization.rs | 2 +-
 crates/macros/src/create_offer.rs  | 4 ++--
 crates/macros/src/token.rs         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index eb6726f..d97e1e4 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -93,7 +93,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #credential,
                 locations: None
-            }
+            },
         });
     }
 
diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index fbda8b5..46a6ea7 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -58,10 +58,10 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
         for gt in gts.as_array().unwrap() {
             match gt.as_str().unwrap() {
                 "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
-                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode});
+                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode,});
                 }
                 "authorization_code" => {
-                    tokens.extend(quote! {#path::GrantType::AuthorizationCode});
+                    tokens.extend(quote! {#path::GrantType::AuthorizationCode,});
                 }
                 _ => {
                     return Err(Error::new(
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 8124144..19d04cb 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -118,7 +118,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #configuration,
                 locations: None
-            }
+            },
         });
     }
 
-- 
2.43.0


From 6ba812281ffbdadd01c7ad2ddfb9185beb8397b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:08 +0000
Subject: [PATCH 11/60] fix: qualify the default send type of
 create_offer_request

---
 crates/macros/src/create_offer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index 46a6ea7..007b278 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -31,7 +31,7 @@ pub fn request(input: &Json) -> Result<TokenStream> {
 
     let tx_code_required = input.get("tx_code_required").unwrap_or(Value::Bool(false));
     let send_type =
-        input.get("send_type").map_or_else(|| quote! {SendType::ByVal}, |v| quote! {#v.into()});
+        input.get("send_type").map_or_else(|| quote! {#path::SendType::ByVal}, |v| quote! {#v.into()});
 
     // return error for any unexpected fields
     input.check_consumed()?;
-- 
2.43.0


From af94ca50362ba8be6576a49c1985650815c058c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:10 +0000
Subject: [PATCH 12/60] fix: generate well-typed claims in token_request
 authorization details

---
 crates/macros/src/token.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 19d04cb..fb7c137 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -134,9 +134,7 @@ fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStre
         // credential_definition is optional
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
             let credential_definition = configuration_definition(defn_value)?;
-            quote! {Some(#path::ProfileW3c{
-                credential_definition:#credential_definition
-            })}
+            quote! {Some(#path::ProfileClaims::W3c(#credential_definition))}
         } else {
             quote! {None}
         };
@@ -236,7 +234,7 @@ fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
 
         // build claims map
         let claims = credential_subject.iter().map(|(k, _)| {
-            quote! {(#k.to_string(), #path::ClaimDefinition::Claim(#path::ClaimDefinition::default()))}
+            quote! {(#k.to_string(), #path::Claim::Entry(#path::ClaimDefinition::default()))}
         });
 
         Ok(quote! {
-- 
2.43.0


From c25cf2371f62358243197c2cfa92b6b287da8921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 13/60] fix: name the missing field in request macro errors

---
 crates/macros/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index 5a8ca84..f57d6ca 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -20,7 +20,7 @@ impl Json {
     /// Expect the key to be present and return the value or an error.
     pub fn expect(&mut self, key: &str) -> Result<Value> {
         let Some(v) = self.fields.remove(key) else {
-            return Err(Error::new(Span::call_site(), "`{key}` is not set"));
+            return Err(Error::new(Span::call_site(), format!("`{key}` is not set")));
         };
         Ok(Value::Tokens(quote! {Into::into(#v)}))
     }
-- 
2.43.0


From ac05480eb7b9c5a657712dff0cf8513bde8a689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:26 +0000
Subject: [PATCH 14/60] fix: keep nested and credential claims given to request
 macros

---
 crates/macros/src/authorization.rs |  3 ++-
 crates/macros/src/credential.rs    |  5 +++--
 crates/macros/src/token.rs         | 23 +----------------------
 3 files changed, 6 insertions(+), 25 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index d97e1e4..079d00c 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -202,7 +202,8 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     })
 }
 
-fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
+// Generate the claims of a `credential_definition`.
+pub fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
     let span = Span::call_site();
 
     if let Some(subject_value) = definition.get("credentialSubject") {
diff --git a/crates/macros/src/credential.rs b/crates/macros/src/credential.rs
index 72a33a0..e015877 100644
--- a/crates/macros/src/credential.rs
+++ b/crates/macros/src/credential.rs
@@ -2,6 +2,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
+use crate::authorization::subject;
 use crate::parse::{Json, Value};
 
 // Create strongly typed `CredentialRequest` from JSON-like input,
@@ -79,11 +80,11 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
         return Err(Error::new(span, "`type` is not set"));
     };
 
-    // let subject = subject(credential_definition)?;
+    let subject = subject(credential_definition)?;
 
     Ok(quote! {
         #path::CredentialDefinition {
-            credential_subject: None,
+            credential_subject: #subject,
             context: None,
             type_: Some(#type_array),
         }
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index fb7c137..79ece0f 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -4,6 +4,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
+use crate::authorization::subject;
 use crate::parse::{Json, Value};
 
 pub fn request(input: &Json) -> Result<TokenStream> {
@@ -222,25 +223,3 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
         }
     })
 }
-
-fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
-    let span = Span::call_site();
-    let path = quote! {vercre_issuer};
-
-    if let Some(subject_value) = definition.get("credentialSubject") {
-        let Some(credential_subject) = subject_value.as_object() else {
-            return Err(Error::new(span, "`credentialSubject` must be an object"));
-        };
-
-        // build claims map
-        let claims = credential_subject.iter().map(|(k, _)| {
-            quote! {(#k.to_string(), #path::Claim::Entry(#path::ClaimDefinition::default()))}
-        });
-
-        Ok(quote! {
-            Some(std::collections::HashMap::from([#(#claims),*]))
-        })
-    } else {
-        Ok(quote! {None})
-    }
-}
-- 
2.43.0


From 8bb3c31a25149f0dcae058e7720242c78ea71e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:52 +0000
Subject: [PATCH 15/60] fix: access tokens live for the advertised period

---
 vercre-issuer/src/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 909e2a8..b4fcea7 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -213,6 +213,7 @@ impl Context {
 
         // update state
         let mut state = self.state.clone();
+        state.expires_at = Utc::now() + Expire::Access.duration();
         state.stage = Stage::Validated(Token {
             access_token: access_token.clone(),
             credentials: authorized,
-- 
2.43.0


From 5e7f74b9ea2a29dbcfe28bf9188a166ea2bcca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:53 +0000
Subject: [PATCH 16/60] fix: allow anonymous token requests when the server
 supports them

---
 vercre-issuer/src/token.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index b4fcea7..260af47 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -94,9 +94,8 @@ impl Context {
                 }
 
                 // anonymous access allowed?
-                if request.client_id.as_ref().is_none()
-                    || request.client_id.as_ref().is_some_and(String::is_empty)
-                        && !server.pre_authorized_grant_anonymous_access_supported
+                if request.client_id.as_ref().is_none_or(String::is_empty)
+                    && !server.pre_authorized_grant_anonymous_access_supported
                 {
                     return Err(Error::InvalidClient("anonymous access is not supported".into()));
                 }
-- 
2.43.0


From 9db173a9015c5f2516a6cbee614c363746b630d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:53 +0000
Subject: [PATCH 17/60] fix: accept pushed authorization requests when the
 server requires them

---
 vercre-issuer/src/par.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/par.rs b/vercre-issuer/src/par.rs
index 443699f..e65c0cf 100644
--- a/vercre-issuer/src/par.rs
+++ b/vercre-issuer/src/par.rs
@@ -48,6 +48,7 @@ async fn verify(provider: &impl Provider, request: &PushedAuthorizationRequest)
     };
     let mut ctx = authorize::Context {
         issuer,
+        is_par: true,
         ..authorize::Context::default()
     };
     ctx.verify(provider, &request.request).await?;
-- 
2.43.0


From 42d58c4a75e016c347428d4874b3a52cb3af4c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:54 +0000
Subject: [PATCH 18/60] fix: keep a deferred transaction until its credential
 is issued

---
 vercre-issuer/src/deferred.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vercre-issuer/src/deferred.rs b/vercre-issuer/src/deferred.rs
index 901bac6..746bfb0 100644
--- a/vercre-issuer/src/deferred.rs
+++ b/vercre-issuer/src/deferred.rs
@@ -48,11 +48,6 @@ async fn process(
         return Err(Error::ServerError("Deferred state not found.".into()));
     };
 
-    // remove deferred state item
-    StateStore::purge(provider, &request.transaction_id)
-        .await
-        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
-
     // make credential request
     let mut cred_req = deferred_state.credential_request;
     cred_req.credential_issuer.clone_from(&request.credential_issuer);
@@ -66,6 +61,11 @@ async fn process(
         return Err(Error::IssuancePending(5));
     };
 
+    // remove deferred state item
+    StateStore::purge(provider, &request.transaction_id)
+        .await
+        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
+
     Ok(DeferredCredentialResponse {
         credential_response: response,
     })
-- 
2.43.0


From d1f4b644b446d129a4ec3e8b2e3a0f9440f82db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:54 +0000
Subject: [PATCH 19/60] fix: reject credential requests with an empty list of
 proofs

---
 vercre-issuer/src/credential.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 7d424f0..08e7fda 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -122,6 +122,10 @@ impl Context {
                 },
             };
 
+            if proof_jwts.is_empty() {
+                return Err(self.invalid_proof(provider, "proof not set").await?);
+            }
+
             for proof_jwt in proof_jwts {
                 // TODO: check proof is signed with supported algorithm (from proof_type)
                 let jwt: jws::Jwt<ProofClaims> =
-- 
2.43.0


From ca40ae19dd1ef9cd3c8895c8eb8800b563d587f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:55 +0000
Subject: [PATCH 20/60] fix: reject requests for claims the credential does not
 support

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 61baef1..47ff32e 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -1707,7 +1707,7 @@ impl CredentialConfiguration {
         // ensure `claimset` claims exist in the supported claims
         if !claimset.is_empty() {
             if let Some(claims) = &self.format.claims() {
-                let _ = Self::claims_supported(claimset, claims);
+                Self::claims_supported(claimset, claims)?;
             }
         }
 
-- 
2.43.0


From edb66fe99adc152d4d18a0a4a28188effb47e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:55 +0000
Subject: [PATCH 21/60] fix: parse single-parameter and JSON authorization
 requests

---
 crates/openid/src/issuer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 47ff32e..db03938 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -434,10 +434,10 @@ impl FromStr for AuthorizationRequest {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if s.contains('=') && s.contains('&') {
-            Ok(urlencode::from_str(s)?)
+        if s.trim_start().starts_with('{') {
+            Ok(serde_json::from_str(s)?)
         } else {
-            Ok(Self::Object(serde_json::from_str(s)?))
+            Ok(urlencode::from_str(s)?)
         }
     }
 }
-- 
2.43.0


From f36921c7053d123ee492332cd1078ae6a5060e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:56 +0000
Subject: [PATCH 22/60] fix: serialize request object responses the way they
 are deserialized

---
 crates/openid/src/verifier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/openid/src/verifier.rs b/crates/openid/src/verifier.rs
index ef5a885..bbe22d0 100644
--- a/crates/openid/src/verifier.rs
+++ b/crates/openid/src/verifier.rs
@@ -440,9 +440,9 @@ impl Serialize for RequestObjectResponse {
         S: Serializer,
     {
         match &self.request_object {
-            RequestObjectType::Object(_) => {
+            RequestObjectType::Object(request_object) => {
                 let mut map = serializer.serialize_map(Some(1))?;
-                map.serialize_entry("request_object", &self.request_object)?;
+                map.serialize_entry("request_object", request_object)?;
                 map.end()
             }
             RequestObjectType::Jwt(jwt) => jwt.serialize(serializer),
-- 
2.43.0


From 377642065244c9c624e8fd5ab465bd072d1761ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:57 +0000
Subject: [PATCH 23/60] fix: do not serve or accept responses to expired
 presentation requests

---
 vercre-verifier/src/request_object.rs |  3 +++
 vercre-verifier/src/response.rs       |  3 +++
 vercre-verifier/src/state.rs          | 12 ++++++------
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/vercre-verifier/src/request_object.rs b/vercre-verifier/src/request_object.rs
index 38033ed..ac0df34 100644
--- a/vercre-verifier/src/request_object.rs
+++ b/vercre-verifier/src/request_object.rs
@@ -46,6 +46,9 @@ async fn process(
     let state = StateStore::get::<State>(&provider, &request.id)
         .await
         .map_err(|e| Error::ServerError(format!("issue fetching state: {e}")))?;
+    if state.is_expired() {
+        return Err(Error::InvalidRequest("state expired".into()));
+    }
     let req_obj = state.request_object;
 
     // verify client_id (perhaps should use 'verify' method?)
diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index d3e08a1..55a9995 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -63,6 +63,9 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
     let Ok(state) = StateStore::get::<State>(&provider, state_key).await else {
         return Err(Error::InvalidRequest("state not found".into()));
     };
+    if state.is_expired() {
+        return Err(Error::InvalidRequest("state expired".into()));
+    }
     let saved_req = &state.request_object;
 
     let Some(vp_token) = request.vp_token.clone() else {
diff --git a/vercre-verifier/src/state.rs b/vercre-verifier/src/state.rs
index 701c59d..9818d03 100644
--- a/vercre-verifier/src/state.rs
+++ b/vercre-verifier/src/state.rs
@@ -30,9 +30,9 @@ pub struct State {
     pub request_object: RequestObject,
 }
 
-// impl State {
-//     /// Determines whether state has expired or not.
-//     pub fn expired(&self) -> bool {
-//         self.expires_at.signed_duration_since(Utc::now()).num_seconds() < 0
-//     }
-// }
+impl State {
+    /// Determines whether state has expired or not.
+    pub fn is_expired(&self) -> bool {
+        self.expires_at.signed_duration_since(Utc::now()).num_seconds() < 0
+    }
+}
-- 
2.43.0


From 772ea55eb902319ebdd6170e0a453461c48e2b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:59 +0000
Subject: [PATCH 24/60] fix: digest ids are never negative

---
 crates/iso-mdl/src/mso.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/iso-mdl/src/mso.rs b/crates/iso-mdl/src/mso.rs
index 72f6c45..9168d64 100644
--- a/crates/iso-mdl/src/mso.rs
+++ b/crates/iso-mdl/src/mso.rs
@@ -190,7 +190,7 @@ impl DigestIdGenerator {
     pub fn gen(&mut self) -> DigestId {
         let mut digest_id;
         loop {
-            digest_id = i32::abs(rand::thread_rng().gen());
+            digest_id = rand::thread_rng().gen::<i32>() & i32::MAX;
             if self.used.insert(digest_id) {
                 return digest_id;
             }
-- 
2.43.0


From 07981dcafb6ec5588e1bde9881ab201d19a0ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:59 +0000
Subject: [PATCH 25/60] fix: status messages do not overwrite neighbouring list
 entries

---
 crates/status/src/bitstring.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 4593791..147ad28 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -151,7 +151,7 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
             }
 
             let position = status.list_index * config.size;
-            if position >= bits.len() {
+            if position + config.size > bits.len() {
                 return Err(anyhow!("status index out of range"));
             }
             match config.purpose {
@@ -160,7 +160,7 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
                 }
                 StatusPurpose::Message => {
                     let value = status.value.view_bits::<Lsb0>();
-                    for (i, bit) in value.iter().enumerate() {
+                    for (i, bit) in value.iter().enumerate().take(config.size) {
                         bits.set(position + i, *bit);
                     }
                 }
-- 
2.43.0


From a5ab612421b3354d780aa3488ca0c1c74658a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:00 +0000
Subject: [PATCH 26/60] fix: set the context required to build a status list
 credential

---
 crates/status/src/bitstring.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 147ad28..6089294 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -15,6 +15,7 @@ use flate2::write::GzEncoder;
 use serde::{Deserialize, Serialize};
 use serde_json::{Map, Value};
 use thiserror::Error;
+use vercre_core::Kind;
 use vercre_infosec::Signer;
 use vercre_w3c_vc::model::{CredentialStatus, CredentialSubject, StatusPurpose, VcBuilder};
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
@@ -216,6 +217,7 @@ pub async fn credential(
     let issued_at = Utc::now().timestamp();
 
     let vc = VcBuilder::new()
+        .add_context(Kind::String("https://www.w3.org/ns/credentials/v2".into()))
         .id(id.clone())
         .add_type("BitstringStatusListCredential")
         .issuer(credential_issuer)
-- 
2.43.0


From 5e258564123e3b86cfaf35c9451dc1f895528fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:00 +0000
Subject: [PATCH 27/60] fix: join the status list id to its base url with a
 single slash

---
 crates/status/src/bitstring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 6089294..86c140d 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -204,7 +204,7 @@ pub async fn credential(
     if !base_url.ends_with('/') {
         base_url.push('/');
     }
-    let id = format!("{base_url}/{}", config.list);
+    let id = format!("{base_url}{}", config.list);
 
     let mut claims = Map::new();
     claims.insert("type".into(), Value::String("BitstringStatusList".into()));
-- 
2.43.0


From 1a997eb2dabd61fb0d0c82e3a19319f67f1ad10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:01 +0000
Subject: [PATCH 28/60] fix: escape descriptions in OpenID error responses

---
 crates/openid/src/error.rs | 47 +++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index 8acb9ce..89fbcea 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -21,7 +21,7 @@ pub enum Error {
     /// parameter value, repeats a parameter, includes multiple credentials,
     /// utilizes more than one mechanism for authenticating the client, or is
     /// otherwise malformed.
-    #[error(r#"{{"error": "invalid_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_request", "error_description": {}}}"#, quote(.0))]
     InvalidRequest(String),
 
     /// Client authentication failed (e.g., unknown client, no client
@@ -39,7 +39,7 @@ pub enum Error {
     ///
     /// Verifier's pre-registered metadata has been found based on the Client
     /// Identifier, but `client_metadata` parameter is also set.
-    #[error(r#"{{"error": "invalid_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_client", "error_description": {}}}"#, quote(.0))]
     InvalidClient(String),
 
     /// The provided authorization grant (e.g., authorization code,
@@ -49,60 +49,60 @@ pub enum Error {
     ///
     /// The Authorization Server expects a PIN in the pre-authorized flow but
     /// the client provides the wrong PIN.
-    #[error(r#"{{"error": "invalid_grant", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_grant", "error_description": {}}}"#, quote(.0))]
     InvalidGrant(String),
 
     /// The client is not authorized to request an authorization code using this
     /// method.
-    #[error(r#"{{"error": "unauthorized_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unauthorized_client", "error_description": {}}}"#, quote(.0))]
     UnauthorizedClient(String),
 
     /// The authorization grant type is not supported by the authorization
     /// server.
-    #[error(r#"{{"error": "unsupported_grant_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_grant_type", "error_description": {}}}"#, quote(.0))]
     UnsupportedGrantType(String),
 
     /// The requested scope is invalid, unknown, malformed, or exceeds the scope
     /// granted.
-    #[error(r#"{{"error": "invalid_scope", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_scope", "error_description": {}}}"#, quote(.0))]
     InvalidScope(String),
 
     /// Unknown authorization details type or authorization details not
     /// conforming to the respective type definition
-    #[error(r#"{{"error": "invalid_authorization_details", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_authorization_details", "error_description": {}}}"#, quote(.0))]
     InvalidAuthorizationDetails(String),
 
     /// The resource owner or authorization server denied the request.
-    #[error(r#"{{"error": "access_denied", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "access_denied", "error_description": {}}}"#, quote(.0))]
     AccessDenied(String),
 
     /// The authorization server does not support obtaining an authorization
     /// code using this method.
-    #[error(r#"{{"error": "unsupported_response_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_response_type", "error_description": {}}}"#, quote(.0))]
     UnsupportedResponseType(String),
 
     /// The authorization server encountered an unexpected condition that
     /// prevented it from fulfilling the request.
-    #[error(r#"{{"error": "server_error", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "server_error", "error_description": {}}}"#, quote(.0))]
     ServerError(String),
 
     /// The authorization server is unable to handle the request due to
     /// temporary overloading or maintenance.
-    #[error(r#"{{"error": "temporarily_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "temporarily_unavailable", "error_description": {}}}"#, quote(.0))]
     TemporarilyUnavailable(String),
 
     /// The Credential Request is missing a required parameter, includes an
     /// unsupported parameter or parameter value, repeats the same
     /// parameter, or is otherwise malformed.
-    #[error(r#"{{"error": "invalid_credential_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_credential_request", "error_description": {}}}"#, quote(.0))]
     InvalidCredentialRequest(String),
 
     /// Requested credential type is not supported.
-    #[error(r#"{{"error": "unsupported_credential_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_type", "error_description": {}}}"#, quote(.0))]
     UnsupportedCredentialType(String),
 
     /// Requested credential format is not supported.
-    #[error(r#"{{"error": "unsupported_credential_format", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_format", "error_description": {}}}"#, quote(.0))]
     UnsupportedFormat(String),
 
     /// Credential Request did not contain a proof, or proof was invalid, i.e.
@@ -111,7 +111,7 @@ pub enum Error {
     /// `c_nonce_expires_in` values to be used by the Wallet when creating
     /// another proof of possession of key material.
     #[allow(missing_docs)]
-    #[error(r#"{{"error": "invalid_proof", "error_description": "{hint}", "c_nonce": "{c_nonce}", "c_nonce_expires_in": {c_nonce_expires_in}}}"#)]
+    #[error(r#"{{"error": "invalid_proof", "error_description": {}, "c_nonce": "{c_nonce}", "c_nonce_expires_in": {c_nonce_expires_in}}}"#, quote(hint))]
     InvalidProof { hint: String, c_nonce: String, c_nonce_expires_in: i64 },
 
     /// This error occurs when the encryption parameters in the Credential
@@ -119,7 +119,7 @@ pub enum Error {
     /// indicates that the Credential Issuer requires the Credential
     /// Response to be sent encrypted, but the Credential Request does not
     /// contain the necessary encryption parameters.
-    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": {}}}"#, quote(.0))]
     InvalidEncryptionParameters(String),
 
     /// The Credential issuance is still pending. The error response SHOULD also
@@ -135,23 +135,23 @@ pub enum Error {
     /// This error occurs when the `transaction_id` was not issued by the
     /// respective Credential Issuer or it was already used to obtain the
     /// Credential.
-    #[error(r#"{{"error": "invalid_transaction_id", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_transaction_id", "error_description": {}}}"#, quote(.0))]
     InvalidTransactionId(String),
 
     /// The Wallet does not support any of the formats requested by the
     /// Verifier, such as those included in the `vp_formats` registration
     /// parameter.
-    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": {}}}"#, quote(.0))]
     VpFormatsNotSupported(String),
 
     /// The Presentation Definition URL cannot be reached.
-    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": {}}}"#, quote(.0))]
     InvalidPresentationDefinitionUri(String),
 
     /// The Presentation Definition URL can be reached, but the specified
     /// `presentation_definition` cannot be found at the URL.
     #[error(
-        r#"{{"error": "invalid_presentation_definition_reference", "error_description": "{0}"}}"#
+        r#"{{"error": "invalid_presentation_definition_reference", "error_description": {}}}"#, quote(.0)
     )]
     InvalidPresentationDefinitionReference(String),
 
@@ -160,10 +160,15 @@ pub enum Error {
     /// Use when the User Agent cannot invoke the Wallet and another component
     /// receives the request while the End-User wishes to continue the journey
     /// on the Verifier website.
-    #[error(r#"{{"error": "wallet_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "wallet_unavailable", "error_description": {}}}"#, quote(.0))]
     WalletUnavailable(String),
 }
 
+// Quote (and escape) text for use in a JSON error response.
+fn quote(text: &str) -> String {
+    serde_json::Value::from(text).to_string()
+}
+
 /// Error response for `OpenID` for Verifiable Credentials.
 #[allow(clippy::module_name_repetitions)]
 #[derive(Deserialize, Serialize)]
-- 
2.43.0


From 02b475c43a3f589d607ea32d0c1fd90f9e200cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:01 +0000
Subject: [PATCH 29/60] fix: serialize issuance_pending errors

---
 crates/openid/src/error.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index 89fbcea..65f25bd 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -177,7 +177,8 @@ pub struct OidError {
     pub error: String,
 
     /// Error description.
-    pub error_description: String,
+    #[serde(default, skip_serializing_if = "Option::is_none")]
+    pub error_description: Option<String>,
 
     /// Optional client-state parameter.
     #[serde(skip_serializing_if = "Option::is_none")]
@@ -190,6 +191,11 @@ pub struct OidError {
     /// The expiry time of the `c_nonce`.
     #[serde(skip_serializing_if = "Option::is_none")]
     pub c_nonce_expires_in: Option<i64>,
+
+    /// The minimum time, in seconds, to wait before retrying a deferred
+    /// credential request.
+    #[serde(skip_serializing_if = "Option::is_none")]
+    pub interval: Option<i64>,
 }
 
 impl Serialize for Error {
-- 
2.43.0


From c02ed65f8cdcc617dcfcc34eb2c544b8058ef098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:02 +0000
Subject: [PATCH 30/60] fix: escape details in status list errors

---
 crates/status/src/bitstring.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 86c140d..3d0aea0 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -48,20 +48,20 @@ pub const DEFAULT_TTL: u64 = 300_000;
 #[derive(Error, Debug, Deserialize)]
 pub enum Error {
     /// Retrievel of the status list failed.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-128", "code": -128, "title": "status retrieval error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-128", "code": -128, "title": "status retrieval error", "detail": {}}}"#, serde_json::Value::from(.0.as_str()))]
     Retrieval(String),
 
     /// Validation of the status entry failed.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-129", "code": -129, "title": "status verification error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-129", "code": -129, "title": "status verification error", "detail": {}}}"#, serde_json::Value::from(.0.as_str()))]
     Verification(String),
 
     /// The status list length does not satisfy the minimum length required for
     /// herd privacy.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-130", "code": -130, "title": "status list length error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-130", "code": -130, "title": "status list length error", "detail": {}}}"#, serde_json::Value::from(.0.as_str()))]
     ListLength(String),
 
     /// The index into the status list is larger than the length of the list.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-67", "code": -67, "title": "range error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-67", "code": -67, "title": "range error", "detail": {}}}"#, serde_json::Value::from(.0.as_str()))]
     Range(String),
 }
 
-- 
2.43.0


From 0b4944a6333169bec61a20c1471ea671f0c51a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:02 +0000
Subject: [PATCH 31/60] fix: record issued credentials for the notification
 endpoint

---
 vercre-issuer/src/credential.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 08e7fda..691c266 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -27,7 +27,7 @@ use vercre_w3c_vc::model::{CredentialSubject, VerifiableCredential};
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
 use vercre_w3c_vc::verify_key;
 
-use crate::state::{Authorized, Deferrance, Expire, Stage, State};
+use crate::state::{Authorized, Credential, Deferrance, Expire, Stage, State};
 
 /// Credential request handler.
 ///
@@ -198,10 +198,11 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue  resolving signer: {e}")))?;
 
         // determine credential format
+        let mut issued = VerifiableCredential::default();
         let response = match &self.configuration.format {
             Format::JwtVcJson(w3c) => {
-                let vc = self.w3c_vc(provider, &w3c.credential_definition, dataset).await?;
-                self.jwt_vc_json(vc, signer, issuance_date).await?
+                issued = self.w3c_vc(provider, &w3c.credential_definition, dataset).await?;
+                self.jwt_vc_json(issued.clone(), signer, issuance_date).await?
             }
             Format::IsoMdl(_) => self.mso_mdoc(dataset, signer).await?,
 
@@ -227,9 +228,7 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue saving state: {e}")))?;
 
         // create issuance state for notification endpoint
-        // TODO: save credential in state !!
-        // state.stage = Stage::Issued(Credential { credential: vc, issuance:
-        // issuance_dt });
+        state.stage = Stage::Issued(Credential { credential: issued });
         let notification_id = gen::notification_id();
 
         StateStore::put(provider, &notification_id, &state, state.expires_at)
-- 
2.43.0


From 8ac568b2d8a0c6c33634d3561aa142e8cfd067ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:27 +0000
Subject: [PATCH 32/60] fix: values of optional fields must match the field's
 filter

---
 crates/dif-exch/src/matcher.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index aca862a..9ab8969 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -35,7 +35,9 @@ impl Constraints {
         // EVERY field must match
         for field in fields {
             // if no match AND the field is not optional, constraints are not satisfied
-            if !field.matched(&vc_val).unwrap_or_default() && !field.optional.unwrap_or_default() {
+            // (when there is a value, it must match the filter even if optional)
+            let optional = field.optional.unwrap_or_default() && !field.selects(&vc_val);
+            if !field.matched(&vc_val).unwrap_or_default() && !optional {
                 return Ok(false);
             }
         }
@@ -46,6 +48,12 @@ impl Constraints {
 }
 
 impl Field {
+    /// Check whether any of the field's paths selects a value from the
+    /// provided `VerifiableCredential`.
+    fn selects(&self, vc: &Value) -> bool {
+        self.path.iter().any(|p| JsonPath::parse(p).is_ok_and(|jp| !jp.query(vc).is_empty()))
+    }
+
     /// Check whether `Constraint` `Field` can be matched to a field the
     /// provided `VerifiableCredential`.
     /// The [Presentation Exchange 2.0.0] specification only requires one
-- 
2.43.0


From 68369d62e41da8dbae3a47402e46a019067ba256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:04 +0000
Subject: [PATCH 33/60] fix: prove possession with the latest c_nonce in every
 credential request

---
 vercre-holder/src/issuance/credentials.rs | 52 +++++++++++++++--------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 0370577..96bac91 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -85,22 +85,10 @@ pub async fn credentials(
         return Err(e);
     }
 
-    // Construct a proof to be used in the credential requests.
-    let claims = ProofClaims {
-        iss: Some(issuance.client_id.clone()),
-        aud: issuance.offer.credential_issuer.clone(),
-        iat: chrono::Utc::now().timestamp(),
-        nonce: issuance.token.c_nonce.clone(),
-    };
-    let jwt = jws::encode(Type::Proof, &claims, provider.clone()).await.map_err(|e| {
-        tracing::error!(target: "Endpoint::credentials", ?e);
-        e
-    })?;
-
     // If the flow is scope-based then we can't examine authorization details
     // but proceed instead to request credentials by format.
     if issuance.scope.is_some() {
-        credential_by_format(provider.clone(), &mut issuance, request, &jwt).await.map_err(
+        credential_by_format(provider.clone(), &mut issuance, request).await.map_err(
             |e| {
                 tracing::error!(target: "Endpoint::credentials", ?e);
                 e
@@ -110,7 +98,7 @@ pub async fn credentials(
     // Otherwise the flow is definition or format based and we make a request
     // for each authorized credential identifier.
     else {
-        credential_by_identifier(provider.clone(), &mut issuance, request, &jwt).await.map_err(
+        credential_by_identifier(provider.clone(), &mut issuance, request).await.map_err(
             |e| {
                 tracing::error!(target: "Endpoint::credentials", ?e);
                 e
@@ -135,9 +123,22 @@ pub async fn credentials(
     })
 }
 
+// Construct a proof to be used in a credential request.
+async fn proof(
+    provider: impl HolderProvider, client_id: &str, credential_issuer: &str, c_nonce: Option<String>,
+) -> anyhow::Result<String> {
+    let claims = ProofClaims {
+        iss: Some(client_id.to_string()),
+        aud: credential_issuer.to_string(),
+        iat: chrono::Utc::now().timestamp(),
+        nonce: c_nonce,
+    };
+    jws::encode(Type::Proof, &claims, provider).await
+}
+
 // Make a credential request by format based on the flow being by scope.
 async fn credential_by_format(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     if request.credential_identifiers.is_some() {
         bail!("credential identifiers must be `None` for scope-based issuance");
@@ -153,12 +154,19 @@ async fn credential_by_format(
     let Some((cfg_id, config)) = config else {
         bail!("credential configuration not found for scope and format");
     };
+    let jwt = proof(
+        provider.clone(),
+        &issuance.client_id,
+        &issuance.offer.credential_issuer,
+        issuance.token.c_nonce.clone(),
+    )
+    .await?;
     let request = CredentialRequest {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
         access_token: issuance.token.access_token.clone(),
         credential: CredentialIssuance::Format(config.format.clone()),
         proof: Some(Proof::Single {
-            proof_type: SingleProof::Jwt { jwt: jwt.into() },
+            proof_type: SingleProof::Jwt { jwt },
         }),
         ..Default::default()
     };
@@ -185,7 +193,7 @@ async fn credential_by_format(
 
 // Make a credential request by identifier.
 async fn credential_by_identifier(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     let Some(authorized) = &issuance.token.authorization_details else {
         bail!("no authorization details in token response");
@@ -217,13 +225,21 @@ async fn credential_by_identifier(
                     continue;
                 }
             }
+            // The issuer provides a new nonce with each response.
+            let jwt = proof(
+                provider.clone(),
+                &issuance.client_id,
+                &issuance.offer.credential_issuer,
+                issuance.token.c_nonce.clone(),
+            )
+            .await?;
             let request = credential_request!({
                 "credential_issuer": issuance.issuer.credential_issuer.clone(),
                 "access_token": issuance.token.access_token.clone(),
                 "credential_identifier": cred_id.to_string(),
                 "proof": {
                     "proof_type": "jwt",
-                    "jwt": jwt.to_string()
+                    "jwt": jwt
                 }
             });
             let cred_res = Issuer::credential(&provider, request).await?;
-- 
2.43.0


From 719069e295866be93352286c165c9ea62e69d816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:05 +0000
Subject: [PATCH 34/60] fix: remember the notification id of issued credentials

---
 vercre-holder/src/issuance/credentials.rs | 6 ++++++
 vercre-holder/src/issuance/deferred.rs    | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 96bac91..a25d3b8 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -174,6 +174,9 @@ async fn credential_by_format(
         tracing::error!(target: "Endpoint::credentials", ?e);
         e
     })?;
+    if cred_res.notification_id.is_some() {
+        issuance.notification_id.clone_from(&cred_res.notification_id);
+    }
     match process_credential_response(provider.clone(), config, &cred_res).await {
         Ok((credentials, transaction_id)) => {
             if let Some(credentials) = credentials {
@@ -256,6 +259,9 @@ async fn credential_by_identifier(
                     return Err(e);
                 }
             };
+            if cred_res.notification_id.is_some() {
+                issuance.notification_id.clone_from(&cred_res.notification_id);
+            }
             if cred_res.c_nonce.is_some() {
                 issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
             }
diff --git a/vercre-holder/src/issuance/deferred.rs b/vercre-holder/src/issuance/deferred.rs
index baa4dde..d4e5ffd 100644
--- a/vercre-holder/src/issuance/deferred.rs
+++ b/vercre-holder/src/issuance/deferred.rs
@@ -81,6 +81,10 @@ pub async fn deferred(
             if let Some(credentials) = credentials {
                 issuance.credentials.extend(credentials);
             }
+            let notification_id = deferred_response.credential_response.notification_id;
+            if notification_id.is_some() {
+                issuance.notification_id = notification_id;
+            }
             if let Some(id) = transaction_id {
                 issuance.deferred.insert(id, request.credential_configuration_id.clone());
             }
-- 
2.43.0


From 1f77a8984b22eae7124d721a4734d15b24714cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:06 +0000
Subject: [PATCH 35/60] fix: do not save or notify twice while waiting for
 deferred credentials

---
 vercre-holder/src/issuance/save.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/save.rs b/vercre-holder/src/issuance/save.rs
index 6acb2e8..d2eb975 100644
--- a/vercre-holder/src/issuance/save.rs
+++ b/vercre-holder/src/issuance/save.rs
@@ -5,6 +5,7 @@
 //!
 //! The converse of this endpoint is the `cancel` endpoint.
 
+use chrono::{DateTime, Utc};
 use serde::{Deserialize, Serialize};
 use tracing::instrument;
 use vercre_issuer::{NotificationEvent, NotificationRequest};
@@ -68,7 +69,7 @@ pub async fn save(provider: impl HolderProvider, request: &SaveRequest) -> anyho
     issuance.credentials.clear();
 
     // Notify issuer if we have been given a notification ID.
-    if let Some(notification_id) = issuance.notification_id {
+    if let Some(notification_id) = issuance.notification_id.take() {
         if let Err(e) = Issuer::notification(
             &provider,
             NotificationRequest {
@@ -95,5 +96,13 @@ pub async fn save(provider: impl HolderProvider, request: &SaveRequest) -> anyho
         return Ok(request.issuance_id.clone());
     }
 
+    // Otherwise, stash the state for the deferred credentials.
+    if let Err(e) =
+        StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await
+    {
+        tracing::error!(target: "Endpoint::save", ?e);
+        return Err(e);
+    };
+
     Ok(request.issuance_id.clone())
 }
-- 
2.43.0


From aaa5835e76bf0e07125ace2078df7acd190627ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:38 +0000
Subject: [PATCH 36/60] fix: only accept credentials that are part of the offer

---
 vercre-holder/src/issuance/accept.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/vercre-holder/src/issuance/accept.rs b/vercre-holder/src/issuance/accept.rs
index 30f5b5c..5f80b63 100644
--- a/vercre-holder/src/issuance/accept.rs
+++ b/vercre-holder/src/issuance/accept.rs
@@ -81,12 +81,12 @@ pub async fn accept(
         }
     };
 
-    issuance.accepted =
-        narrow_scope(&issuance.issuer.credential_configurations_supported, request.accept.as_ref())
-            .map_err(|e| {
-                tracing::error!(target: "Endpoint::accept", ?e);
-                e
-            })?;
+    let mut offered = issuance.issuer.credential_configurations_supported.clone();
+    offered.retain(|id, _| issuance.offer.credential_configuration_ids.contains(id));
+    issuance.accepted = narrow_scope(&offered, request.accept.as_ref()).map_err(|e| {
+        tracing::error!(target: "Endpoint::accept", ?e);
+        e
+    })?;
 
     issuance.status = Status::Accepted;
 
@@ -118,14 +118,12 @@ fn narrow_scope(
     };
     let mut auth_details = Vec::new();
     for auth_spec in accept {
+        let Some(credential_configuration) = offered.get(&auth_spec.credential_configuration_id)
+        else {
+            bail!("credential configuration accepted not found in offer");
+        };
         let claims: Option<ProfileClaims> = match &auth_spec.claims {
             Some(claims) => {
-                let Some(credential_configuration) =
-                    offered.get(&auth_spec.credential_configuration_id)
-                else {
-                    bail!("credential configuration accepted not found in offer");
-                };
-
                 let profile = match &credential_configuration.format {
                     Format::JwtVcJson(_) | Format::JwtVcJsonLd(_) | Format::LdpVc(_) => {
                         ProfileClaims::W3c(CredentialDefinition {
-- 
2.43.0


From 8ad3ac8d47967de23de5f3fc9a5b62d146e9bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:49 +0000
Subject: [PATCH 37/60] fix: authorize the credentials accepted by the holder
 unless told otherwise

---
 vercre-holder/src/issuance/authorize.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 34a1002..673fa53 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -167,7 +167,9 @@ pub async fn authorize(
             issuance
         }
     };
-    issuance.accepted.clone_from(&request.authorization_details);
+    if request.authorization_details.is_some() {
+        issuance.accepted.clone_from(&request.authorization_details);
+    }
 
     // PKCE pair
     let verifier = pkce::code_verifier();
-- 
2.43.0


From e8c5b1e9a4b90bdebdd38dc3fd278ada8aa30aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:30 +0000
Subject: [PATCH 38/60] fix: only match dates in their full form

---
 crates/dif-exch/src/matcher.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 9ab8969..8ad8600 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -152,7 +152,8 @@ fn match_format(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
 
     match format.as_str() {
         "date" => match vc_node {
-            Value::String(str_node) => Ok(NaiveDate::parse_from_str(str_node, "%Y-%m-%d").is_ok()),
+            Value::String(str_node) => Ok(NaiveDate::parse_from_str(str_node, "%Y-%m-%d")
+                .is_ok_and(|date| date.to_string() == *str_node)),
             _ => Ok(false),
         },
         "date-time" => match vc_node {
-- 
2.43.0


From 97813593c2572685b8cfbb5c895d7c6c4dad00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:50 +0000
Subject: [PATCH 39/60] fix: name the proof type when it is missing from
 credential_request

---
 crates/macros/src/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/macros/src/credential.rs b/crates/macros/src/credential.rs
index e015877..bdc5b1d 100644
--- a/crates/macros/src/credential.rs
+++ b/crates/macros/src/credential.rs
@@ -105,7 +105,7 @@ fn proof(input: &mut Json) -> Result<TokenStream> {
                 return Err(Error::new(span, "`proof_type` must be `jwt`"));
             }
         } else {
-            return Err(Error::new(span, "`type` is not set"));
+            return Err(Error::new(span, "`proof_type` is not set"));
         }
 
         let Some(jwt) = proof.get("jwt") else {
-- 
2.43.0


From 5623095ec71f605d2e6218b35272b52ae6846674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:51 +0000
Subject: [PATCH 40/60] fix: keep the locations of authorization details given
 to request macros

---
 crates/macros/src/authorization.rs | 6 +++++-
 crates/macros/src/token.rs         | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 079d00c..c502748 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -88,11 +88,15 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         // credential_configuration_id or format?
         let credential = credential_authorization(detail)?;
 
+        let locations = detail
+            .get("locations")
+            .map_or_else(|| quote! {None}, |locations| quote! {Some(#locations)});
+
         tokens.extend(quote! {
             #path::AuthorizationDetail {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #credential,
-                locations: None
+                locations: #locations
             },
         });
     }
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 79ece0f..1a459e0 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -114,11 +114,15 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         // credential_configuration_id or format?
         let configuration = credential_configuration(detail)?;
 
+        let locations = detail
+            .get("locations")
+            .map_or_else(|| quote! {None}, |locations| quote! {Some(#locations)});
+
         tokens.extend(quote! {
             #path::AuthorizationDetail {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #configuration,
-                locations: None
+                locations: #locations
             },
         });
     }
-- 
2.43.0


From 7473eb225027ca250e4d78a1cff4497ee604b4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:21 +0000
Subject: [PATCH 41/60] fix: refuse authorization details whose type is not a
 text

---
 crates/macros/src/authorization.rs | 4 ++--
 crates/macros/src/token.rs         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index c502748..8c69c36 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -76,8 +76,8 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
 
         // check type is set and is `openid_credential`
         if let Some(type_) = detail.get("type") {
-            if let Some(t) = type_.as_str()
-                && t != "openid_credential"
+            if !matches!(type_, Value::Ident(_) | Value::Tokens(_))
+                && type_.as_str() != Some("openid_credential")
             {
                 return Err(Error::new(span, "`type` must be `openid_credential`"));
             }
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 1a459e0..5385ba4 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -102,8 +102,8 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
 
         // check type is set and is `openid_credential`
         if let Some(type_) = detail.get("type") {
-            if let Some(t) = type_.as_str()
-                && t != "openid_credential"
+            if !matches!(type_, Value::Ident(_) | Value::Tokens(_))
+                && type_.as_str() != Some("openid_credential")
             {
                 return Err(Error::new(span, "`type` must be `openid_credential`"));
             }
-- 
2.43.0


From 828f20483890b0035545d464723b266b0fa31e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:47 +0000
Subject: [PATCH 42/60] fix: issue deferred credentials after the nonce of
 their proof has been replaced

---
 vercre-issuer/src/credential.rs | 14 ++++++++++++--
 vercre-issuer/src/deferred.rs   |  5 +++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 691c266..e50e978 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -38,6 +38,14 @@ use crate::state::{Authorized, Credential, Deferrance, Expire, Stage, State};
 #[instrument(level = "debug", skip(provider))]
 pub async fn credential(
     provider: impl Provider, request: CredentialRequest,
+) -> Result<CredentialResponse> {
+    issue(provider, request, false).await
+}
+
+/// Issue the requested credential. A request deferred earlier has had its proof
+/// verified against the `c_nonce` of the time, which may have changed since.
+pub(crate) async fn issue(
+    provider: impl Provider, request: CredentialRequest, deferred: bool,
 ) -> Result<CredentialResponse> {
     let Ok(state) = StateStore::get::<State>(&provider, &request.access_token).await else {
         return Err(Error::AccessDenied("invalid access token".into()));
@@ -50,6 +58,7 @@ pub async fn credential(
     let mut ctx = Context {
         state,
         issuer,
+        deferred,
         ..Context::default()
     };
 
@@ -74,6 +83,7 @@ struct Context {
     authorized: Authorized,
     configuration: CredentialConfiguration,
     holder_did: String,
+    deferred: bool,
 }
 
 impl Context {
@@ -97,7 +107,7 @@ impl Context {
             return Err(Error::AccessDenied("invalid access token state".into()));
         };
 
-        if token_state.c_nonce_expired() {
+        if !self.deferred && token_state.c_nonce_expired() {
             return Err(Error::AccessDenied("c_nonce has expired".into()));
         }
 
@@ -146,7 +156,7 @@ impl Context {
                 }
 
                 // previously issued c_nonce
-                if jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
+                if !self.deferred && jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
                     return Err(self
                         .invalid_proof(provider, "Proof JWT nonce claim is invalid")
                         .await?);
diff --git a/vercre-issuer/src/deferred.rs b/vercre-issuer/src/deferred.rs
index 746bfb0..fec73e7 100644
--- a/vercre-issuer/src/deferred.rs
+++ b/vercre-issuer/src/deferred.rs
@@ -15,7 +15,7 @@ use vercre_openid::issuer::{
 };
 use vercre_openid::{Error, Result};
 
-use crate::credential::credential;
+use crate::credential::issue;
 use crate::state::{Stage, State};
 
 /// Deferred credential request handler.
@@ -50,10 +50,11 @@ async fn process(
 
     // make credential request
     let mut cred_req = deferred_state.credential_request;
+    let proven = cred_req.access_token == request.access_token;
     cred_req.credential_issuer.clone_from(&request.credential_issuer);
     cred_req.access_token.clone_from(&request.access_token);
 
-    let response = credential(provider.clone(), cred_req).await?;
+    let response = issue(provider.clone(), cred_req, proven).await?;
 
     // is issuance still pending?
     if let CredentialResponseType::TransactionId(_) = response.response {
-- 
2.43.0


From f88e4c2b9d7637791015b9d8f3a7fbe01f703895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:30 +0000
Subject: [PATCH 43/60] fix: refuse authorization details for unsupported
 credential configurations

---
 vercre-issuer/src/authorize.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index fc19b45..f3738fc 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -300,14 +300,16 @@ impl Context {
                 }
             };
 
+            // check credential is supported
+            let Some(config) = self.issuer.credential_configurations_supported.get(config_id)
+            else {
+                return Err(Error::InvalidAuthorizationDetails(
+                    "invalid credential_configuration_id".into(),
+                ));
+            };
+
             // check claims are supported and include all mandatory claims
             if let Some(requested) = &claims {
-                let Some(config) = self.issuer.credential_configurations_supported.get(config_id)
-                else {
-                    return Err(Error::InvalidAuthorizationDetails(
-                        "invalid credential_configuration_id".into(),
-                    ));
-                };
                 config
                     .verify_claims(requested)
                     .map_err(|e| Error::InvalidRequest(e.to_string()))?;
-- 
2.43.0


From fa13da14dc0c56d5bb611f1e55885a9a01531992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:31 +0000
Subject: [PATCH 44/60] fix: look up credential status by the credential's own
 identifier

---
 vercre-issuer/src/credential.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index e50e978..73776d4 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -273,7 +273,8 @@ impl Context {
         let Some(subject_id) = &self.state.subject_id else {
             return Err(Error::AccessDenied("invalid subject id".into()));
         };
-        let status = Status::status(provider, subject_id, "credential_identifier")
+        let credential_identifier = &self.authorized.credential_identifier;
+        let status = Status::status(provider, subject_id, credential_identifier)
             .await
             .map_err(|e| Error::ServerError(format!("issue populating credential status: {e}")))?;
 
-- 
2.43.0


From 3720bb5c165d5c443278a99f86d9fbd2d6a8cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:31 +0000
Subject: [PATCH 45/60] fix: accept only a credential offer's state as
 issuer_state

---
 vercre-issuer/src/authorize.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index f3738fc..371f1c6 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -207,6 +207,9 @@ impl Context {
             if state.is_expired() {
                 return Err(Error::InvalidRequest("issuer state expired".into()));
             }
+            if !matches!(state.stage, Stage::Offered(_)) {
+                return Err(Error::InvalidRequest("issuer state is not for an offer".into()));
+            }
 
             if state.subject_id.as_ref() != Some(&request.subject_id) {
                 return Err(Error::InvalidRequest(
-- 
2.43.0


From b7e97e81c5c8c96c5f865886e232afdf4aaa6d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:19 +0000
Subject: [PATCH 46/60] fix: name the members of a bitstring status entry as
 the specification does

---
 crates/w3c-vc/src/model/vc.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/w3c-vc/src/model/vc.rs b/crates/w3c-vc/src/model/vc.rs
index 6dbd03c..bf32009 100644
--- a/crates/w3c-vc/src/model/vc.rs
+++ b/crates/w3c-vc/src/model/vc.rs
@@ -232,6 +232,7 @@ impl Default for CredentialStatusType {
 ///
 /// [Bitstring Status List v1.0](https://www.w3.org/TR/vc-bitstring-status-list/)
 #[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
+#[serde(rename_all = "camelCase")]
 pub struct Bitstring {
     /// The purpose of the status declaration stored in the bitstring.
     pub status_purpose: StatusPurpose,
-- 
2.43.0


From dbcb8066c674ea617ac77657ab349480a52a06d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:20 +0000
Subject: [PATCH 47/60] fix: name the members of an mdoc's issuer-signed items
 as ISO 18013-5 does

---
 crates/iso-mdl/src/mdoc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/iso-mdl/src/mdoc.rs b/crates/iso-mdl/src/mdoc.rs
index 9af4ba4..7722310 100644
--- a/crates/iso-mdl/src/mdoc.rs
+++ b/crates/iso-mdl/src/mdoc.rs
@@ -55,8 +55,10 @@ pub type IssuerSignedItemBytes = Tag24<IssuerSignedItem>;
 
 /// Issuer-signed data element
 #[derive(Clone, Debug, Deserialize, Serialize)]
+#[serde(rename_all = "camelCase")]
 pub struct IssuerSignedItem {
     /// Id of the digest as added to the MSO `value_digests` parameter.
+    #[serde(rename = "digestID")]
     pub digest_id: mso::DigestId,
 
     /// Random hexadecimal value for issuer data authentication.
-- 
2.43.0


From 0172b5cfbfcf062db246ef5ebab5e6481068ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:47 +0000
Subject: [PATCH 48/60] fix: signing a credential with an empty subject list
 panicked

---
 crates/w3c-vc/src/proof/jose.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/w3c-vc/src/proof/jose.rs b/crates/w3c-vc/src/proof/jose.rs
index d25fde6..b3052f5 100644
--- a/crates/w3c-vc/src/proof/jose.rs
+++ b/crates/w3c-vc/src/proof/jose.rs
@@ -87,8 +87,8 @@ pub struct VcClaims {
 impl VcClaims {
     pub fn from_vc(vc: VerifiableCredential, issued_at: i64) -> Self {
         let subject = match &vc.credential_subject {
-            Quota::One(sub) => sub,
-            Quota::Many(subs) => &subs[0],
+            Quota::One(sub) => Some(sub),
+            Quota::Many(subs) => subs.first(),
         };
 
         let issuer_id = match &vc.issuer {
@@ -98,7 +98,7 @@ impl VcClaims {
 
         Self {
             // TODO: find better way to set sub (shouldn't need to be in vc)
-            sub: subject.id.clone().unwrap_or_default(),
+            sub: subject.and_then(|s| s.id.clone()).unwrap_or_default(),
             nbf: None,
             iss: issuer_id.clone(),
             iat: issued_at,
-- 
2.43.0


From 9eedf36a714323604c9c871aa1d4202818b9f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:48 +0000
Subject: [PATCH 49/60] fix: reading a presentation from an empty text panicked

---
 crates/w3c-vc/src/model/vp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/w3c-vc/src/model/vp.rs b/crates/w3c-vc/src/model/vp.rs
index 83918b8..99b8118 100644
--- a/crates/w3c-vc/src/model/vp.rs
+++ b/crates/w3c-vc/src/model/vp.rs
@@ -168,7 +168,7 @@ impl FromStr for VerifiablePresentation {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self, Self::Err> {
-        if &s[0..1] != "{" {
+        if !s.starts_with('{') {
             // base64 encoded string
             let dec = Base64UrlUnpadded::decode_vec(s)?;
             return Ok(serde_json::from_slice(dec.as_slice())?);
-- 
2.43.0


From 430cc6123a0f6c3a17b0dfb0aabbf7363e2bd392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:48 +0000
Subject: [PATCH 50/60] fix: the position of a status could overflow

---
 crates/status/src/bitstring.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 3d0aea0..18bce6d 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -151,10 +151,13 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
                 continue;
             }
 
-            let position = status.list_index * config.size;
-            if position + config.size > bits.len() {
-                return Err(anyhow!("status index out of range"));
-            }
+            let position = status
+                .list_index
+                .checked_mul(config.size)
+                .filter(|position| {
+                    position.checked_add(config.size).is_some_and(|end| end <= bits.len())
+                })
+                .ok_or_else(|| anyhow!("status index out of range"))?;
             match config.purpose {
                 StatusPurpose::Revocation | StatusPurpose::Suspension => {
                     bits.set(position, status.value != 0);
-- 
2.43.0


From 0a8a6a9d44df94cb5cd4881ae0593d9bdfac77ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:49 +0000
Subject: [PATCH 51/60] fix: a message status too big for its size was cut off
 silently

---
 crates/status/src/bitstring.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 18bce6d..2f9c6ec 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -164,6 +164,9 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
                 }
                 StatusPurpose::Message => {
                     let value = status.value.view_bits::<Lsb0>();
+                    if value.iter().skip(config.size).any(|bit| *bit) {
+                        return Err(anyhow!("status value does not fit status size"));
+                    }
                     for (i, bit) in value.iter().enumerate().take(config.size) {
                         bits.set(position + i, *bit);
                     }
-- 
2.43.0


From aaf0e3569d011346f29d6168146641335e442029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:50 +0000
Subject: [PATCH 52/60] fix: name the purpose of a status list statusPurpose

---
 crates/status/src/bitstring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 2f9c6ec..c4c7119 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -214,7 +214,7 @@ pub async fn credential(
 
     let mut claims = Map::new();
     claims.insert("type".into(), Value::String("BitstringStatusList".into()));
-    claims.insert("purpose".into(), Value::String(config.purpose.to_string()));
+    claims.insert("statusPurpose".into(), Value::String(config.purpose.to_string()));
     claims.insert("encodedList".into(), Value::String(bitstring.into()));
 
     let cache_time = ttl.unwrap_or(DEFAULT_TTL);
-- 
2.43.0


From b407511d888e8c9a8e8fd73561452f1d27e62575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:50 +0000
Subject: [PATCH 53/60] fix: the format of a JSON-LD credential is ldp_vc

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index db03938..b2e627f 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -732,7 +732,7 @@ pub enum Format {
     /// used by the Wallet to check whether it supports a certain VC. If
     /// necessary, the Wallet could apply JSON-LD processing to the
     /// Credential issued.
-    #[serde(rename = "ldp-vc")]
+    #[serde(rename = "ldp_vc")]
     LdpVc(ProfileW3c),
 
     /// A W3C Verifiable Credential.
-- 
2.43.0


From 9f3e2bf49d781588ae1815b0e38e9fde48a90aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:51 +0000
Subject: [PATCH 54/60] fix: escape the c_nonce of an invalid_proof error

---
 crates/openid/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index 65f25bd..706ccbb 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -111,7 +111,7 @@ pub enum Error {
     /// `c_nonce_expires_in` values to be used by the Wallet when creating
     /// another proof of possession of key material.
     #[allow(missing_docs)]
-    #[error(r#"{{"error": "invalid_proof", "error_description": {}, "c_nonce": "{c_nonce}", "c_nonce_expires_in": {c_nonce_expires_in}}}"#, quote(hint))]
+    #[error(r#"{{"error": "invalid_proof", "error_description": {}, "c_nonce": {}, "c_nonce_expires_in": {c_nonce_expires_in}}}"#, quote(hint), quote(c_nonce))]
     InvalidProof { hint: String, c_nonce: String, c_nonce_expires_in: i64 },
 
     /// This error occurs when the encryption parameters in the Credential
-- 
2.43.0


From 8fbef0ffce119cfa5acf41b988ed845942c4fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:36 +0000
Subject: [PATCH 55/60] fix: the proof of a wallet-initiated issuance was made
 for no audience

---
 vercre-holder/src/issuance/credentials.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index a25d3b8..eaea74f 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -157,7 +157,7 @@ async fn credential_by_format(
     let jwt = proof(
         provider.clone(),
         &issuance.client_id,
-        &issuance.offer.credential_issuer,
+        &issuance.issuer.credential_issuer,
         issuance.token.c_nonce.clone(),
     )
     .await?;
@@ -232,7 +232,7 @@ async fn credential_by_identifier(
             let jwt = proof(
                 provider.clone(),
                 &issuance.client_id,
-                &issuance.offer.credential_issuer,
+                &issuance.issuer.credential_issuer,
                 issuance.token.c_nonce.clone(),
             )
             .await?;
-- 
2.43.0


From 420d90dcbd4a6e6b9dec47ab270d9a8746b2b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:36 +0000
Subject: [PATCH 56/60] fix: keep the c_nonce of a credential issued by scope

---
 vercre-holder/src/issuance/credentials.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index eaea74f..d4085b5 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -177,6 +177,12 @@ async fn credential_by_format(
     if cred_res.notification_id.is_some() {
         issuance.notification_id.clone_from(&cred_res.notification_id);
     }
+    if cred_res.c_nonce.is_some() {
+        issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
+    }
+    if cred_res.c_nonce_expires_in.is_some() {
+        issuance.token.c_nonce_expires_in.clone_from(&cred_res.c_nonce_expires_in);
+    }
     match process_credential_response(provider.clone(), config, &cred_res).await {
         Ok((credentials, transaction_id)) => {
             if let Some(credentials) = credentials {
-- 
2.43.0


From bf0e2f3b7b8045afbec62172f3bfaa0d748f0495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:37 +0000
Subject: [PATCH 57/60] fix: keep the c_nonce sent with a deferred credential

---
 vercre-holder/src/issuance/deferred.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vercre-holder/src/issuance/deferred.rs b/vercre-holder/src/issuance/deferred.rs
index d4e5ffd..dd1b6e8 100644
--- a/vercre-holder/src/issuance/deferred.rs
+++ b/vercre-holder/src/issuance/deferred.rs
@@ -85,6 +85,14 @@ pub async fn deferred(
             if notification_id.is_some() {
                 issuance.notification_id = notification_id;
             }
+            let c_nonce = deferred_response.credential_response.c_nonce;
+            if c_nonce.is_some() {
+                issuance.token.c_nonce = c_nonce;
+            }
+            let c_nonce_expires_in = deferred_response.credential_response.c_nonce_expires_in;
+            if c_nonce_expires_in.is_some() {
+                issuance.token.c_nonce_expires_in = c_nonce_expires_in;
+            }
             if let Some(id) = transaction_id {
                 issuance.deferred.insert(id, request.credential_configuration_id.clone());
             }
-- 
2.43.0


From 18090e1a01dc348f4c5eb9cb521c1dd1ffeca1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:34 +0000
Subject: [PATCH 58/60] fix: a credential whose display list is empty panicked
 the wallet

---
 vercre-holder/src/issuance/credentials.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index d4085b5..19c20e5 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -344,9 +344,9 @@ async fn credential(
     };
 
     // Base64-encoded logo if possible.
-    if let Some(display) = &config.display {
+    if let Some(display) = config.display.as_ref().and_then(|display| display.first()) {
         // TODO: Locale?
-        if let Some(logo_info) = &display[0].logo {
+        if let Some(logo_info) = &display.logo {
             if let Some(uri) = &logo_info.uri {
                 if let Ok(logo) = Issuer::logo(provider, uri).await {
                     storable_credential.logo = Some(logo);
-- 
2.43.0


From 4f2654a3da78ca432781365eabe245ebf1b1f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:34 +0000
Subject: [PATCH 59/60] fix: reading a failed presentation status without a
 message panicked

---
 vercre-holder/src/presentation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vercre-holder/src/presentation.rs b/vercre-holder/src/presentation.rs
index c238758..0108533 100644
--- a/vercre-holder/src/presentation.rs
+++ b/vercre-holder/src/presentation.rs
@@ -84,8 +84,8 @@ impl FromStr for Status {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self> {
-        if s.starts_with("Failed") {
-            return Ok(Self::Failed(s[8..].to_string()));
+        if let Some(e) = s.strip_prefix("Failed: ") {
+            return Ok(Self::Failed(e.to_string()));
         }
         match s {
             "Inactive" => Ok(Self::Inactive),
-- 
2.43.0


From a8ce5317c5107718c925ac27fd91839255f137f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:48 +0000
Subject: [PATCH 60/60] fix: only the first input descriptor of a presentation
 request was answered

---
 vercre-holder/src/presentation/present.rs | 12 +++++++++++-
 vercre-holder/src/presentation/request.rs | 23 +++++++++++++----------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/vercre-holder/src/presentation/present.rs b/vercre-holder/src/presentation/present.rs
index 821b3c1..e63409d 100644
--- a/vercre-holder/src/presentation/present.rs
+++ b/vercre-holder/src/presentation/present.rs
@@ -92,13 +92,23 @@ fn create_submission(presentation: &Presentation) -> anyhow::Result<Presentation
     let mut desc_map: Vec<DescriptorMap> = vec![];
     for n in 0..pd.input_descriptors.len() {
         let in_desc = &pd.input_descriptors[n];
+        let mut index = None;
+        for (i, credential) in presentation.credentials.iter().enumerate() {
+            if in_desc.constraints.satisfied(&credential.vc)? {
+                index = Some(i);
+                break;
+            }
+        }
+        let Some(index) = index else {
+            bail!("no credential satisfies input descriptor {}", in_desc.id);
+        };
         let dm = DescriptorMap {
             id: in_desc.id.clone(),
             path: "$".to_string(),
             path_nested: PathNested {
                 format: "jwt_vc_json".to_string(),
                 // URGENT: index matched VCs not input descriptors!!
-                path: "$.verifiableCredential[0]".to_string(),
+                path: format!("$.verifiableCredential[{index}]"),
             },
             format: "jwt_vc_json".to_string(),
         };
diff --git a/vercre-holder/src/presentation/request.rs b/vercre-holder/src/presentation/request.rs
index 0005204..eac01db 100644
--- a/vercre-holder/src/presentation/request.rs
+++ b/vercre-holder/src/presentation/request.rs
@@ -76,13 +76,18 @@ pub async fn request(
 
     // Get the credentials from the holder's credential store that match the
     // verifier's request.
-    let filter = build_filter(&req_obj).map_err(|e| {
+    let filters = build_filters(&req_obj).map_err(|e| {
         tracing::error!(target: "Endpoint::request", ?e);
         e
     })?;
-    presentation.filter.clone_from(&filter);
-    let credentials = CredentialStorer::find(&provider, Some(filter)).await?;
-    presentation.credentials.clone_from(&credentials);
+    presentation.filter.clone_from(&filters[0]);
+    for filter in filters {
+        for credential in CredentialStorer::find(&provider, Some(filter)).await? {
+            if !presentation.credentials.contains(&credential) {
+                presentation.credentials.push(credential);
+            }
+        }
+    }
 
     // Stash the presentation flow for subsequent steps
     if let Err(e) = super::put_presentation(provider, &presentation).await {
@@ -115,10 +120,9 @@ async fn parse_request_object_response(
     Ok(jwt.claims)
 }
 
-/// Construct a credential filter (`JSONPath`) from the presentation definition
-/// contained in the presentation request.
-// TODO: How to handle multiple input descriptors?
-fn build_filter(request: &RequestObject) -> anyhow::Result<Constraints> {
+/// Construct a credential filter (`JSONPath`) for each input descriptor of the
+/// presentation definition contained in the presentation request.
+fn build_filters(request: &RequestObject) -> anyhow::Result<Vec<Constraints>> {
     let pd = match &request.presentation_definition {
         Kind::Object(pd) => pd,
         Kind::String(_) => bail!("presentation_definition_uri is unsupported"),
@@ -126,7 +130,6 @@ fn build_filter(request: &RequestObject) -> anyhow::Result<Constraints> {
     if pd.input_descriptors.is_empty() {
         bail!("no input descriptors found");
     }
-    let constraints = pd.input_descriptors[0].constraints.clone();
 
-    Ok(constraints)
+    Ok(pd.input_descriptors.iter().map(|descriptor| descriptor.constraints.clone()).collect())
 }
-- 
2.43.0

