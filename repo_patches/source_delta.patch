From f21b1593ed9a03ef366ef6fec3e23d17de52c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 01/15] fix: keep every error when chaining onto an error that
 is itself a chain

---
 src/error.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 75168e0..6fac29e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -234,7 +234,13 @@ impl Error {
     /// assert_eq!(unchained, vec!["1", "2", "3"]);
     /// ```
     pub fn chain(self, mut error: Error) -> Self {
-        error.prev = Some(Box::new(self));
+        // `error` may itself be a chain: keep it by adding `self` to its end.
+        let mut tail = &mut error.prev;
+        while let Some(prev) = tail {
+            tail = &mut prev.prev;
+        }
+
+        *tail = Some(Box::new(self));
         error
     }
 
-- 
2.43.0


From 03e78c28a7303b92120305fb0592daa52b8cee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 02/15] fix: report the full key path and the provider when
 keyed extraction fails

---
 src/error.rs   | 7 +++++++
 src/figment.rs | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 6fac29e..e3d4731 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -146,6 +146,13 @@ impl Error {
         self
     }
 
+    /// Prefixes `self`'s path with the components of the dotted path `path`.
+    pub(crate) fn within(self, path: &str) -> Self {
+        path.rsplit('.')
+            .filter(|key| !key.is_empty())
+            .fold(self, |error, key| error.prefixed(key))
+    }
+
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
         if self.tag.is_default() {
             self.tag = tag;
diff --git a/src/figment.rs b/src/figment.rs
index 76d0277..020f921 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -569,7 +569,8 @@ impl Figment {
     pub fn extract_inner<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, DefaultInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de)
+            .map_err(|e| e.retagged(value.tag()).resolved(self).within(path))
     }
 
     /// As [`extract`](Figment::extract_lossy), but interpret numbers and
@@ -603,7 +604,8 @@ impl Figment {
     pub fn extract_inner_lossy<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, LossyInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de)
+            .map_err(|e| e.retagged(value.tag()).resolved(self).within(path))
     }
 
     /// Returns an iterator over the metadata for all of the collected values in
-- 
2.43.0


From e1e4ee2987e4b6f084694a38fbfdb521de59dbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 03/15] fix: deserialize 128-bit integers, and other integers
 from 128-bit values

---
 src/value/de.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index b4ceb6f..e9e167d 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -166,8 +166,8 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
         deserialize_bool =>
             |de| I::interpret_as_bool(de.value),
             |e| e.retagged(de.value.tag()).resolved(de.config),
-        deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64,
-        deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
+        deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_u128,
+        deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_i128,
         deserialize_f32, deserialize_f64 =>
             |de| I::interpret_as_num(de.value),
             |e| e.retagged(de.value.tag()).resolved(de.config),
@@ -323,7 +323,7 @@ impl<'de> Deserializer<'de> for &Value {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str
         string seq bytes byte_buf map unit struct
         ignored_any unit_struct tuple_struct tuple identifier
     }
@@ -346,12 +346,21 @@ impl<'de> Deserializer<'de> for Num {
             Num::U16(n) => visitor.visit_u16(n),
             Num::U32(n) => visitor.visit_u32(n),
             Num::U64(n) => visitor.visit_u64(n),
-            Num::U128(n) => visitor.visit_u128(n),
+            Num::U128(n) => {
+                // Only visitors of 128-bit integers accept 128-bit integers, so
+                // visit one only if the value needs the width.
+                int_try!(n; u128 => u64 => visitor.visit_u64);
+                visitor.visit_u128(n)
+            }
             Num::I8(n) => visitor.visit_i8(n),
             Num::I16(n) => visitor.visit_i16(n),
             Num::I32(n) => visitor.visit_i32(n),
             Num::I64(n) => visitor.visit_i64(n),
-            Num::I128(n) => visitor.visit_i128(n),
+            Num::I128(n) => {
+                int_try!(n; i128 => i64 => visitor.visit_i64);
+                int_try!(n; i128 => u64 => visitor.visit_u64);
+                visitor.visit_i128(n)
+            }
             Num::F32(n) => visitor.visit_f32(n),
             Num::F64(n) => visitor.visit_f64(n),
             Num::ISize(n) => {
@@ -374,7 +383,7 @@ impl<'de> Deserializer<'de> for Num {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
@@ -393,7 +402,7 @@ impl<'de> Deserializer<'de> for Empty {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
-- 
2.43.0


From e917f7b685800d41c4bc598bac03ad85282af492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 04/15] fix: attribute custom errors of array elements to the
 element's provider

---
 src/value/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index e9e167d..55ab49d 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -248,7 +248,7 @@ impl<'v, 'de, D, F> de::SeqAccess<'de> for SeqDe<'v, D, F>
             // item.map_tag(|metadata| metadata.path.push(self.count.to_string()));
             self.len -= 1;
             seed.deserialize((self.make_deserializer)(item))
-                .map_err(|e: Error| e.prefixed(&i.to_string()))
+                .map_err(|e: Error| e.prefixed(&i.to_string()).retagged(item.tag()))
                 .map(Some)
         } else {
             Ok(None)
-- 
2.43.0


From 889cc90a15779e05ef2d4e941f834bc11ccae573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 05/15] fix: don't report internal field names in error paths
 of magic values

---
 src/error.rs       | 9 +++++++++
 src/value/magic.rs | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index e3d4731..514a929 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -146,6 +146,15 @@ impl Error {
         self
     }
 
+    /// Removes `key` from the front of `self`'s path if it's there.
+    pub(crate) fn unprefixed(mut self, key: &str) -> Self {
+        if self.path.first().map_or(false, |first| first == key) {
+            self.path.remove(0);
+        }
+
+        self
+    }
+
     /// Prefixes `self`'s path with the components of the dotted path `path`.
     pub(crate) fn within(self, path: &str) -> Self {
         path.rsplit('.')
diff --git a/src/value/magic.rs b/src/value/magic.rs
index ab37974..ac53323 100644
--- a/src/value/magic.rs
+++ b/src/value/magic.rs
@@ -206,6 +206,7 @@ impl Magic for RelativePathBuf {
         let value = de.value.find_ref(Self::FIELDS[1]).unwrap_or(de.value);
         map.insert(Self::FIELDS[1].into(), value.clone());
         visitor.visit_map(MapDe::new(&map, |v| ConfiguredValueDe::<I>::from(config, v)))
+            .map_err(|e| e.unprefixed(Self::FIELDS[1]))
     }
 }
 
@@ -596,6 +597,7 @@ impl<T: for<'de> Deserialize<'de>> Magic for Tagged<T> {
         map.insert(Self::FIELDS[0].into(), de.value.tag().into());
         map.insert(Self::FIELDS[1].into(), value.clone());
         visitor.visit_map(MapDe::new(&map, |v| ConfiguredValueDe::<I>::from(config, v)))
+            .map_err(|e| e.unprefixed(Self::FIELDS[1]))
     }
 }
 
-- 
2.43.0


From 273fc4f90018c2f0999c3dc581a4aec35abb6b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 06/15] fix: parse numeric strings with a decimal point at full
 precision

Num::from_str parsed short strings such as "0.1" as f32, so lossy extraction
of "0.1" as f64 gave 0.10000000149011612.
---
 src/value/value.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/value/value.rs b/src/value/value.rs
index 3d95af8..162d4bb 100644
--- a/src/value/value.rs
+++ b/src/value/value.rs
@@ -515,11 +515,7 @@ impl FromStr for Num {
     fn from_str(string: &str) -> Result<Self, Self::Err> {
         let string = string.trim();
         if string.contains('.') {
-            if string.len() <= (f32::DIGITS as usize + 1) {
-                Ok(string.parse::<f32>().map_err(Either::Right)?.into())
-            } else {
-                Ok(string.parse::<f64>().map_err(Either::Right)?.into())
-            }
+            Ok(string.parse::<f64>().map_err(Either::Right)?.into())
         } else if string.starts_with('-') {
             let int = string.parse::<i128>().map_err(Either::Left)?;
             try_convert![int => i8, i16, i32, i64];
-- 
2.43.0


From f86de19d64e77dcdd729d747ce268e88814754d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 07/15] fix: unescape quoted strings with multi-byte characters
 before an escape

The character count was used as a byte offset, which panicked or cut text off.
---
 src/value/escape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/escape.rs b/src/value/escape.rs
index 5a32f63..ae5ee4a 100644
--- a/src/value/escape.rs
+++ b/src/value/escape.rs
@@ -19,7 +19,7 @@ pub enum Error {
 }
 
 pub fn escape(string: &str) -> Result<Cow<'_, str>, Error> {
-    let mut chars = string.chars().enumerate();
+    let mut chars = string.char_indices();
     let mut output = Cow::from(string);
     while let Some((i, ch)) = chars.next() {
         match ch {
-- 
2.43.0


From 62de43c359a92080f3d4a0f24eeb07401db28625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 08/15] fix: bound the nesting of environment variable values

Parsing is recursive, so a value of many opening brackets overflowed the stack
and aborted the process. Values nested over 128 levels deep, the limit of the
text formats, are now taken as strings.
---
 src/value/parse.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/value/parse.rs b/src/value/parse.rs
index 4e4d271..868897b 100644
--- a/src/value/parse.rs
+++ b/src/value/parse.rs
@@ -4,14 +4,19 @@ use crate::value::{Value, Dict, escape::escape};
 
 use super::Empty;
 
+/// How deeply arrays and dictionaries may nest. Parsing is recursive.
+const MAX_DEPTH: usize = 128;
+
 struct Parser<'a> {
     cursor: &'a str,
+    depth: usize,
 }
 
 #[derive(Debug)]
 #[allow(dead_code)]
 pub enum Error {
     Expected(Value),
+    TooDeep,
     Escape(super::escape::Error),
     Eof,
 }
@@ -20,7 +25,7 @@ type Result<T> = std::result::Result<T, Error>;
 
 impl<'a> Parser<'a> {
     fn new(cursor: &'a str) -> Self {
-        Self { cursor }
+        Self { cursor, depth: 0 }
     }
 
     fn peek(&self, c: char) -> bool {
@@ -111,8 +116,13 @@ impl<'a> Parser<'a> {
     fn delimited<T, V, F>(&mut self, start: char, end: char, value: F) -> Result<T>
         where T: Extend<V> + Default, F: Fn(&mut Self) -> Result<V>,
     {
+        if self.depth >= MAX_DEPTH {
+            return Err(Error::TooDeep);
+        }
+
         let mut collection = T::default();
         self.eat(start)?;
+        self.depth += 1;
         self.skip_whitespace();
 
         while !self.peek(end) {
@@ -127,6 +137,7 @@ impl<'a> Parser<'a> {
         }
 
         self.eat(end)?;
+        self.depth -= 1;
         Ok(collection)
     }
 
-- 
2.43.0


From 5ae2d54b6d8690ac8a60142c5e9c8561c0fbe399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 09/15] fix: keep Env::lowercase(false) when more filters are
 chained

---
 src/providers/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/providers/env.rs b/src/providers/env.rs
index 64c8965..4005dd6 100644
--- a/src/providers/env.rs
+++ b/src/providers/env.rs
@@ -136,7 +136,7 @@ impl Env {
             filter_map: Box::new(move |key| f(filter_map(key))),
             profile: self.profile,
             prefix: self.prefix,
-            lowercase: true,
+            lowercase: self.lowercase,
         }
     }
 
-- 
2.43.0


From 02dc82db74e469265039b5eb8fd4b7bc7a3d72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 10/15] fix: expand the merge keys of merged mappings in
 extended YAML

A mapping merged through '<<' that itself contains a merge was copied with its
'<<' entry instead of the keys that entry stands for, leaving a stray '<<' key
and losing the inherited ones. Apply merges depth-first.
---
 src/providers/data.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/providers/data.rs b/src/providers/data.rs
index d135de8..eb65b19 100644
--- a/src/providers/data.rs
+++ b/src/providers/data.rs
@@ -604,8 +604,23 @@ impl YamlExtended {
     /// });
     /// ```
     pub fn from_str<'de, T: DeserializeOwned>(s: &'de str) -> serde_yaml::Result<T> {
+        // Applies merges depth-first: a merged mapping may itself contain merges,
+        // which `serde_yaml::Value::apply_merge()` would otherwise copy as keys.
+        fn apply_merge(value: &mut serde_yaml::Value) -> serde_yaml::Result<()> {
+            use serde_yaml::Value;
+
+            match value {
+                Value::Mapping(map) => map.values_mut().try_for_each(apply_merge)?,
+                Value::Sequence(seq) => seq.iter_mut().try_for_each(apply_merge)?,
+                Value::Tagged(tagged) => apply_merge(&mut tagged.value)?,
+                _ => return Ok(()),
+            }
+
+            value.apply_merge()
+        }
+
         let mut value: serde_yaml::Value = serde_yaml::from_str(s)?;
-        value.apply_merge()?;
+        apply_merge(&mut value)?;
         T::deserialize(value)
     }
 }
-- 
2.43.0


From d5daf6e63893787696ce991c61e10b8f5154bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 11/15] fix: read extended YAML without merge keys exactly as
 YAML

Every document went through a serde_yaml::Value, so that documents without any
merge key which Yaml accepts, such as ones with integer or boolean keys or
integers beyond 64 bits, were rejected by YamlExtended, and '~' wasn't.
---
 src/providers/data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/providers/data.rs b/src/providers/data.rs
index eb65b19..4443331 100644
--- a/src/providers/data.rs
+++ b/src/providers/data.rs
@@ -619,6 +619,12 @@ impl YamlExtended {
             value.apply_merge()
         }
 
+        // Without merge keys, there's nothing to expand: don't go through a
+        // `serde_yaml::Value`, which can't hold everything `Yaml` accepts.
+        if !s.contains("<<") {
+            return serde_yaml::from_str(s);
+        }
+
         let mut value: serde_yaml::Value = serde_yaml::from_str(s)?;
         apply_merge(&mut value)?;
         T::deserialize(value)
-- 
2.43.0


From fcfdd7b86a7a47b0168346e45b4fe5316c2801a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 12/15] fix: don't abort when Jail::set_env panics

set_env() recorded the variable before setting it. Setting it panics when the
name or value is invalid, and restoring the invalid name then panicked again
while unwinding, aborting the process. Record the variable once it is set.
---
 src/jail.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jail.rs b/src/jail.rs
index 4dea3ba..c4b134b 100644
--- a/src/jail.rs
+++ b/src/jail.rs
@@ -2,7 +2,7 @@ use std::fs::{File, self};
 use std::io::{Write, BufWriter};
 use std::path::{Path, PathBuf};
 use std::fmt::Display;
-use std::ffi::{OsStr, OsString};
+use std::ffi::OsString;
 use std::collections::HashMap;
 
 use tempfile::TempDir;
@@ -344,11 +344,11 @@ impl Jail {
     /// ```
     pub fn set_env<K: AsRef<str>, V: Display>(&mut self, k: K, v: V) {
         let key = k.as_ref();
-        if !self.saved_env_vars.contains_key(OsStr::new(key)) {
-            self.saved_env_vars.insert(key.into(), std::env::var_os(key));
-        }
+        let previous = std::env::var_os(key);
 
+        // This may panic, in which case there's nothing to restore.
         std::env::set_var(key, v.to_string());
+        self.saved_env_vars.entry(key.into()).or_insert(previous);
     }
 }
 
-- 
2.43.0


From 4cdaf4213f92293274c10d02418f3da7d745b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:36 +0000
Subject: [PATCH 13/15] fix: types may ask a figment's deserializer whether
 it's human readable more than once

The answer alternated between true and false, so that a type that asks and then
deserializes another that asks too, like a wrapper of an IP address, failed to
extract.
---
 src/value/de.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index 55ab49d..ea7feb0 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -40,16 +40,22 @@ impl Interpreter for LossyInterpreter {
     }
 }
 
+thread_local! {
+    // Set by `Value::deserialize()` while it identifies its deserializer, and
+    // marked by `ConfiguredValueDe`. The latter is always human readable: types
+    // that depend on it may ask any number of times.
+    static FINGERPRINT: Cell<Option<bool>> = Cell::new(None);
+}
+
 pub struct ConfiguredValueDe<'c, I = DefaultInterpreter> {
     pub config: &'c Figment,
     pub value: &'c Value,
-    pub readable: Cell<bool>,
     _phantom: PhantomData<I>
 }
 
 impl<'c, I: Interpreter> ConfiguredValueDe<'c, I> {
     pub fn from(config: &'c Figment, value: &'c Value) -> Self {
-        Self { config, value, readable: Cell::from(true), _phantom: PhantomData }
+        Self { config, value, _phantom: PhantomData }
     }
 }
 
@@ -157,9 +163,8 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
     }
 
     fn is_human_readable(&self) -> bool {
-        let val = self.readable.get();
-        self.readable.set(!val);
-        val
+        FINGERPRINT.with(|f| f.set(f.get().map(|_| true)));
+        true
     }
 
     apply_then_forward_to_deserialize_any! {
@@ -438,13 +443,14 @@ impl<'de> Deserialize<'de> for RawValue {
 
 impl<'de> Deserialize<'de> for Value {
     fn deserialize<D: Deserializer<'de>>(de: D) -> result::Result<Value, D::Error> {
-        // Total hack to "fingerprint" our deserializer by checking if
-        // human_readable changes, which does for ours but shouldn't for others.
-        let (a, b) = (de.is_human_readable(), de.is_human_readable());
-        if a == b {
-            de.deserialize_any(ValueVisitor)
-        } else {
+        // Total hack to "fingerprint" our deserializer by checking if calling
+        // `is_human_readable()` leaves a mark, which it does only for ours.
+        FINGERPRINT.with(|f| f.set(Some(false)));
+        let _ = de.is_human_readable();
+        if FINGERPRINT.with(|f| f.take()) == Some(true) {
             de.deserialize_struct(Value::NAME, Value::FIELDS, ValueVisitor)
+        } else {
+            de.deserialize_any(ValueVisitor)
         }
     }
 }
-- 
2.43.0


From 66005f373da7db247aa5e01c413f9c44d1805e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 14/15] fix: ignore leading '.' components in diff_paths

A leading '.' in either path counted as a directory, so that for instance
the difference from './x' to 'a' was 'a/..' and that from '.' to '' was '..'.
---
 src/util.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 13b0930..df29af4 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -71,8 +71,8 @@ pub fn diff_paths<P, B>(path: P, base: B) -> Option<PathBuf>
         return None;
     }
 
-    let mut ita = path.components();
-    let mut itb = base.components();
+    let mut ita = path.components().filter(|c| *c != Component::CurDir);
+    let mut itb = base.components().filter(|c| *c != Component::CurDir);
     let mut comps: Vec<Component> = vec![];
     loop {
         match (ita.next(), itb.next()) {
@@ -84,7 +84,6 @@ pub fn diff_paths<P, B>(path: P, base: B) -> Option<PathBuf>
             }
             (None, _) => comps.push(Component::ParentDir),
             (Some(a), Some(b)) if comps.is_empty() && a == b => (),
-            (Some(a), Some(Component::CurDir)) => comps.push(a),
             (Some(_), Some(Component::ParentDir)) => return None,
             (Some(a), Some(_)) => {
                 comps.push(Component::ParentDir);
-- 
2.43.0


From bb7a2dc0cf0743ac94028115fde8506e26eb1df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:06 +0000
Subject: [PATCH 15/15] fix: no difference from a base with later '..'
 components in diff_paths

Every component of the base below the common ancestor was answered by a '..',
even if it was a '..' itself, so that for instance the difference from 'a/..'
to 'a' was '../..'. The result is None, as it was already for a base whose
first differing component is '..'.
---
 src/util.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index df29af4..54b1d25 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -82,12 +82,17 @@ pub fn diff_paths<P, B>(path: P, base: B) -> Option<PathBuf>
                 comps.extend(ita.by_ref());
                 break;
             }
+            (None, Some(Component::ParentDir)) => return None,
             (None, _) => comps.push(Component::ParentDir),
             (Some(a), Some(b)) if comps.is_empty() && a == b => (),
             (Some(_), Some(Component::ParentDir)) => return None,
             (Some(a), Some(_)) => {
                 comps.push(Component::ParentDir);
-                for _ in itb {
+                for b in itb {
+                    if b == Component::ParentDir {
+                        return None;
+                    }
+
                     comps.push(Component::ParentDir);
                 }
                 comps.push(a);
-- 
2.43.0

