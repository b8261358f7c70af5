From 392b105f86d227a4ca1491f258e495eedf663ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 1/9] fix: encode the text given to
 Data/Value::from_unencoded_str

---
 src/text/encoded.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text/encoded.rs b/src/text/encoded.rs
index 689e1ba..317bb2b 100644
--- a/src/text/encoded.rs
+++ b/src/text/encoded.rs
@@ -90,7 +90,9 @@ impl EncodedText {
 
     pub(crate) fn from_unencoded_str(value: &str) -> EncodedText {
         EncodedText {
-            value: text::Deferred::Actual(value.into()),
+            value: text::Deferred::Actual(
+                encode_str_optional(value).unwrap_or_else(|| value.into()),
+            ),
         }
     }
 
-- 
2.43.0


From 2ccd02f031c8a06ffd2ee182a9bf2e61a92843af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 2/9] fix: decode files as a whole, so that a character split
 between two reads is accepted

---
 src/template.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 6d2cd2b..fb0f697 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -159,7 +159,7 @@ impl Template {
                 error,
             })?;
 
-        let mut input = String::new();
+        let mut input = Vec::new();
         let limit = options
             .max_input_len
             .unwrap_or_else(usize::max_value);
@@ -177,22 +177,8 @@ impl Template {
                     break 'read;
                 }
 
-                let valid_data = match str::from_utf8(data) {
-                    Ok(valid_data) => valid_data,
-                    Err(error) =>
-                        if error.valid_up_to() == 0 {
-                            return Err(FileError::Decode {
-                                path: path.into(),
-                                error,
-                            });
-                        } else {
-                            str::from_utf8(&data[..error.valid_up_to()])
-                                .expect("verified utf8")
-                        },
-                };
-            
-                input.push_str(valid_data);
-                valid_data.len()
+                input.extend_from_slice(data);
+                data.len()
             };
 
             if input.len() > limit {
@@ -205,7 +191,13 @@ impl Template {
             buffer.consume(consumed_len);
         }
 
-        Template::from_str(&input, options)
+        let input = str::from_utf8(&input)
+            .map_err(|error| FileError::Decode {
+                path: path.into(),
+                error,
+            })?;
+
+        Template::from_str(input, options)
             .map_err(|error| FileError::Input {
                 path: path.into(),
                 error,
-- 
2.43.0


From 818343b4e656b7aad57c04e5d529349b029fc634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 3/9] fix: keep leading whitespace of attribute values

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 92b50e5..3c865a7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -571,7 +571,7 @@ fn try_parse_attribute<'i>(tag: &str, input: input::Input<'i>)
     };
     let value_start = rest.location();
     let rest = match rest.take_char('"') {
-        Some(rest) => rest.skip_whitespace(),
+        Some(rest) => rest,
         None => return Err(Error::InvalidAttributeValue { 
             location: value_start,
             tag: tag.into(),
-- 
2.43.0


From c1ad1641ff1124fa5b4419dbc8cd9898fa72e094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 4/9] fix: name the right tag and location in closing tag error
 messages

---
 src/parse.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c865a7..c4dd7ac 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -238,7 +238,7 @@ impl fmt::Display for Error {
             Error::InvalidOpeningTagIdentifier { location, .. } =>
                 write!(fmt, "Invalid opening tag identifier at {}", location),
             Error::InvalidClosingTagIdentifier { location, .. } =>
-                write!(fmt, "Invalid opening tag identifier at {}", location),
+                write!(fmt, "Invalid closing tag identifier at {}", location),
             Error::InvalidAttributeIdentifier { location, .. } =>
                 write!(fmt, "Invalid attribute identifier at {}", location),
             Error::InvalidAttributeValue { ref tag, ref attribute_name, location } =>
@@ -259,7 +259,7 @@ impl fmt::Display for Error {
                 {
                     write!(fmt, "Unclosed '{}' tag starting at {}", tag, location)?;
                     if !others.is_empty() {
-                        write!(fmt, "(also unclosed are: ")?;
+                        write!(fmt, " (also unclosed are: ")?;
                         for (index, &(ref tag, _)) in others.iter().enumerate() {
                             if index != 0 {
                                 write!(fmt, ",")?;
@@ -285,10 +285,10 @@ impl fmt::Display for Error {
                 closing_location,
             } =>
                 write!(fmt, "Closing tag '{}' at {} does not match opening tag '{}' at {}",
-                    opening_tag,
-                    opening_location,
                     closing_tag,
                     closing_location,
+                    opening_tag,
+                    opening_location,
                 ),
         }
     }
-- 
2.43.0


From b20f7941d50c99de8a91e6b6f6011c0ca3968ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 5/9] fix: reject identifiers containing a single quote, which
 the parser cannot read back

---
 src/text/identifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/identifier.rs b/src/text/identifier.rs
index ffcef58..4489e9b 100644
--- a/src/text/identifier.rs
+++ b/src/text/identifier.rs
@@ -103,7 +103,7 @@ impl error::Error for IdentifierError {
 pub(crate) fn validate(value: &str) -> Result<&str, IdentifierError> {
     use std::ascii::{ AsciiExt };
 
-    const FORBIDDEN: &[char] = &['=', '"', '/', '>', '<', '&', ',', ';'];
+    const FORBIDDEN: &[char] = &['=', '"', '\'', '/', '>', '<', '&', ',', ';'];
 
     if value.is_empty() {
         return Err(IdentifierError::Empty);
-- 
2.43.0


From 92c8ccac0d040e41537b33b2190550b60a1c5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 6/9] fix: reject tag names that would be read back as a
 comment or doctype

---
 src/parse.rs    | 17 ++++++++++++++++-
 src/template.rs |  1 +
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index c4dd7ac..b0f93a1 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -620,7 +620,13 @@ fn try_parse_tag_open(input: input::Input) -> Option<ParseResult> {
         None => return None,
     };
     let (tag, rest) = match rest.take_identifier() {
-        Ok(Some((identifier, rest))) => (identifier, rest.skip_whitespace()),
+        Ok(Some((identifier, after))) => match validate_tag_name(&identifier) {
+            Ok(()) => (identifier, after.skip_whitespace()),
+            Err(error) => return Some(Err(Error::InvalidOpeningTagIdentifier {
+                identifier_error: error,
+                location: rest.location(),
+            })),
+        },
         Ok(None) => return Some(Err(Error::ExpectedOpeningTagIdentifier {
             location: rest.location(),
         })),
@@ -678,6 +684,15 @@ fn mode_for_tag(tag: &str, self_close: bool) -> Mode {
     Mode::Data
 }
 
+/// A rendered opening tag must not start like a directive (`<!--` or `<!doctype`).
+pub(crate) fn validate_tag_name(tag: &text::Identifier) -> Result<(), text::IdentifierError> {
+    if tag.starts_with('!') {
+        Err(text::IdentifierError::Forbidden { forbidden: '!' })
+    } else {
+        Ok(())
+    }
+}
+
 pub(crate) fn is_void_tag(tag: &str) -> bool {
 
     const VOID_TAGS: &'static [&'static str] = &[
diff --git a/src/template.rs b/src/template.rs
index fb0f697..636d767 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -262,6 +262,7 @@ impl Template {
     pub fn with_element<T>(tag: T) -> Result<Template, text::IdentifierError>
     where T: text::IntoIdentifier {
         let tag = tag.into_identifier()?;
+        parse::validate_tag_name(&tag)?;
         let event = {
             let attributes = event::Attributes::new(Vec::new());
             if parse::is_void_tag(&tag) {
-- 
2.43.0


From b428acd54c5152ff32d7fb68d1ad66c8cd2df3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 7/9] fix: compare text by content, not by whether it is stored
 as a static string

---
 src/text/deferred.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/text/deferred.rs b/src/text/deferred.rs
index 6b6c09f..aac39d6 100644
--- a/src/text/deferred.rs
+++ b/src/text/deferred.rs
@@ -3,7 +3,7 @@ use std::ops;
 use std::str;
 use std::fmt;
 
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone)]
 pub(crate) enum Deferred<T> {
     StaticStr(&'static str),
     Actual(T),
@@ -51,3 +51,11 @@ impl<T> ops::Deref for Deferred<T> where T: ops::Deref<Target=str> {
     }
 }
 
+impl<T> PartialEq for Deferred<T> where T: ops::Deref<Target=str> {
+
+    fn eq(&self, other: &Deferred<T>) -> bool {
+        **self == **other
+    }
+}
+
+impl<T> Eq for Deferred<T> where T: ops::Deref<Target=str> {}
-- 
2.43.0


From cfe0884f89d8150da9b40393d6a02999974dc57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 8/9] fix: retry interrupted reads when loading a template file

---
 src/template.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 636d767..7d2a459 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -167,11 +167,15 @@ impl Template {
         'read: loop {
 
             let consumed_len = {
-                let data = buffer.fill_buf()
-                    .map_err(|error| FileError::Read {
+                let data = match buffer.fill_buf() {
+                    Ok(data) => data,
+                    Err(ref error) if error.kind() == io::ErrorKind::Interrupted =>
+                        continue 'read,
+                    Err(error) => return Err(FileError::Read {
                         path: path.into(),
                         error,
-                    })?;
+                    }),
+                };
 
                 if data.is_empty() {
                     break 'read;
-- 
2.43.0


From b93feb1080d6d7f722445fadd9771b8df6f40d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:17 +0000
Subject: [PATCH 9/9] fix: keep width and precision from padding or cutting the
 text parts of a template

---
 src/event.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/event.rs b/src/event.rs
index 5020def..314bd3c 100644
--- a/src/event.rs
+++ b/src/event.rs
@@ -165,9 +165,9 @@ impl fmt::Display for Event {
             EventKind::Comment { ref content, .. } =>
                 write!(fmt, "<!--{}-->", content),
             EventKind::Data { ref content, .. } =>
-                fmt::Display::fmt(content, fmt),
+                write!(fmt, "{}", content),
             EventKind::RawData { ref content, .. } =>
-                fmt::Display::fmt(content, fmt),
+                write!(fmt, "{}", content),
             EventKind::SelfClosedTag { ref tag, ref attributes, .. } =>
                 write!(fmt, "<{} />", TagDisplay { tag: tag, attributes: attributes }),
             EventKind::OpeningTag { ref tag, ref attributes, .. }
-- 
2.43.0

