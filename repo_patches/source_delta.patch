From 3d7078533f4b06bca03e4dfab7f8a46360df4586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 1/6] fix: refuse to append an empty element to an ObjectPath

---
 src/value/object_path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/value/object_path.rs b/src/value/object_path.rs
index 7e19c4a..56abda2 100644
--- a/src/value/object_path.rs
+++ b/src/value/object_path.rs
@@ -164,7 +164,8 @@ impl ObjectPath {
     /// Append an element to the object path.
     ///
     /// Returns `true` if the new element could be appended, otherwise `false`.
-    /// An element cannot be appended if the element contain a character, which is not allowed.
+    /// An element cannot be appended if the element is empty or contain a character, which is not
+    /// allowed.
     ///
     /// # Example
     /// ```
@@ -179,6 +180,9 @@ impl ObjectPath {
     /// assert_eq!(&object_path, "/object/path");
     /// ```
     pub fn append(&mut self, element: &str) -> bool {
+        if element.is_empty() {
+            return false;
+        }
         for c in element.as_bytes() {
             if !c.is_ascii_alphanumeric() && *c != b'_' {
                 return false;
-- 
2.43.0


From 7b4f9994a47cbeec18291c6735527f5d353bb6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 2/6] fix: let the root path namespace match every path

---
 src/match_rule/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/match_rule/matching.rs b/src/match_rule/matching.rs
index feb6aae..abcc014 100644
--- a/src/match_rule/matching.rs
+++ b/src/match_rule/matching.rs
@@ -6,7 +6,7 @@ use crate::{
 
 fn match_namespace<const P: char>(namespace: &str, value: &str) -> bool {
     if let Some(value) = value.strip_prefix(namespace) {
-        value.starts_with(P) || value.is_empty()
+        value.starts_with(P) || value.is_empty() || namespace.ends_with(P)
     } else {
         false
     }
-- 
2.43.0


From 72a9d114de975d572f657a1b231e11488b7852d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 3/6] fix: reject argNpath match rules with an index above 63

---
 src/match_rule/decode.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/match_rule/decode.rs b/src/match_rule/decode.rs
index df83732..6964f9a 100644
--- a/src/match_rule/decode.rs
+++ b/src/match_rule/decode.rs
@@ -1,5 +1,9 @@
 use super::{
-    arg::Arg, arg_path::ArgPath, split::Split, unescape::unescape, MatchRule, MatchRuleError,
+    arg::{Arg, MAXIMUM_ARG_INDEX},
+    arg_path::ArgPath,
+    split::Split,
+    unescape::unescape,
+    MatchRule, MatchRuleError,
 };
 use crate::{
     message::MessageType,
@@ -52,6 +56,9 @@ impl TryFrom<&str> for MatchRule {
         } else if let Some(key_arg) = key.strip_prefix("arg") {
             if let Some(index) = key_arg.strip_suffix("path") {
                 let index = index.parse::<usize>()?;
+                if MAXIMUM_ARG_INDEX <= index {
+                    return Err(MatchRuleError::ArgIndexTooBig(index));
+                }
                 let arg_path = unescape(value)?;
                 match ObjectPath::try_from(arg_path.as_str()) {
                     Ok(arg_path) => Ok(MatchRule::ArgPath(ArgPath::from((index, arg_path)))),
-- 
2.43.0


From eeaa2d44951065d84218d394dcbe2ccb1fd4a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 4/6] fix: do not encode a stale signature for an empty body

---
 src/encode/message/header.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/encode/message/header.rs b/src/encode/message/header.rs
index 98fe489..68c8235 100644
--- a/src/encode/message/header.rs
+++ b/src/encode/message/header.rs
@@ -46,6 +46,7 @@ impl Encoder {
             fields.signature = Some(body_signature);
             body_length
         } else {
+            fields.signature = None;
             0
         };
 
-- 
2.43.0


From 1f7f159c221d96483a676440f7a2fd2ede26451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:34 +0000
Subject: [PATCH 5/6] fix: refuse to encode variants nested deeper than the
 decoder accepts

---
 src/encode/encoder.rs         |  3 +++
 src/encode/error.rs           |  3 +++
 src/encode/value/container.rs | 11 ++++++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/encode/encoder.rs b/src/encode/encoder.rs
index ea62472..77f95e1 100644
--- a/src/encode/encoder.rs
+++ b/src/encode/encoder.rs
@@ -6,6 +6,8 @@ pub struct Encoder {
     pub(crate) buf: BytesMut,
     #[cfg(target_family = "unix")]
     pub(crate) fds: Vec<RawFd>,
+    /// The number of variants which enclose the value that is currently encoded.
+    pub(crate) variant_depth: u8,
 }
 
 impl Encoder {
@@ -27,6 +29,7 @@ impl Encoder {
             buf: BytesMut::new(),
             #[cfg(target_family = "unix")]
             fds: Vec::new(),
+            variant_depth: 0,
         }
     }
 }
diff --git a/src/encode/error.rs b/src/encode/error.rs
index ff8a0f6..812dd1f 100644
--- a/src/encode/error.rs
+++ b/src/encode/error.rs
@@ -1,3 +1,4 @@
+use crate::decode::MAXIMUM_VARIANT_DEPTH;
 use crate::value::{Type, TypeError, MAXIMUM_ARRAY_LENGTH};
 use thiserror::Error;
 
@@ -14,4 +15,6 @@ pub enum EncodeError {
     BodySignatureMissing(u32),
     #[error("Could not encode Signature: {0}")]
     SignatureError(#[from] TypeError),
+    #[error("Variant depth is too big: {MAXIMUM_VARIANT_DEPTH} < {0}")]
+    VariantDepth(u8),
 }
diff --git a/src/encode/value/container.rs b/src/encode/value/container.rs
index 077bf2d..bbf61a3 100644
--- a/src/encode/value/container.rs
+++ b/src/encode/value/container.rs
@@ -1,3 +1,4 @@
+use crate::decode::MAXIMUM_VARIANT_DEPTH;
 use crate::encode::{EncodeError, EncodeResult, Encoder};
 use crate::value::{Array, Struct, Value, MAXIMUM_ARRAY_LENGTH};
 use std::slice::from_ref;
@@ -46,9 +47,17 @@ impl Encoder {
 
     /// Encode a `&[Value]` as a variant into the buffer.
     pub fn variant(&mut self, variant: &Value, is_le: bool) -> EncodeResult<()> {
+        let variant_depth = self.variant_depth + 1;
+        if MAXIMUM_VARIANT_DEPTH < variant_depth {
+            return Err(EncodeError::VariantDepth(variant_depth));
+        }
+
         let type_ = variant.get_type()?;
         let signature = from_ref(&type_);
         self.signature(signature)?;
-        self.value(variant, is_le)
+        self.variant_depth = variant_depth;
+        self.value(variant, is_le)?;
+        self.variant_depth = variant_depth - 1;
+        Ok(())
     }
 }
-- 
2.43.0


From 3ae8bcb5d09e4c501567b6e4f2d2c02cd6b5beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 6/6] fix: give split messages no stale signature when the body
 is empty

---
 src/message/message_struct.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/message/message_struct.rs b/src/message/message_struct.rs
index bfae08a..a9a985d 100644
--- a/src/message/message_struct.rs
+++ b/src/message/message_struct.rs
@@ -370,9 +370,11 @@ impl Message {
     /// Split the [`Message`] object into the header and the body.
     pub fn split(mut self) -> Result<(Header, Vec<Value>), TypeError> {
         let signature = self.get_signature()?;
-        if !signature.is_empty() {
-            self.header.fields.signature = Some(signature);
-        }
+        self.header.fields.signature = if signature.is_empty() {
+            None
+        } else {
+            Some(signature)
+        };
         Ok((self.header, self.body))
     }
 }
-- 
2.43.0

